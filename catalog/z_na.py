na('Z01', 'Nodes agree: honest nodes settle on one chain and blocks become final',
 'Nodes that exchange blocks, votes and proofs over a network that delivers eventually settle on the same chain, and a block that was committed to disk is never reverted.',
 'schedules histories', 'all message delays, orders and hostile minorities', 'A test runs one network schedule; agreement is a claim over all of them.',
 ['src/Node_update.cpp', 'src/Router.cpp'], [('fork choice', 'src/Node_update.cpp: update; src/Node.cpp: find_best_fork, commit')],
 'Agreement and finality depend on message timing, the share of hostile space and VDF speed: run-time and probabilistic quantities which no sound static argument over this source bounds. The local rules they rest on are claimed as N08-N13, R01 and R02.')
na('Z02', 'Work is done in time: lookups, block validation and sync keep their deadlines',
 'A harvester answers before the proof deadline, a block within the gas limit is validated within the block interval, and sync catches up with the chain.',
 'schedules', 'all machines, plot counts and loads', 'Wall-clock time on one machine says nothing about another load or machine.',
 ['src/Harvester.cpp', 'src/Node_sync.cpp'], [('deadlines', 'src/Harvester.cpp: check_queue, lookup_task; src/Node_sync.cpp')],
 'Wall-clock deadlines depend on disk, processor and load; nothing in the source bounds them. What is done when a deadline has passed is claimed in F02 and N08.')
na('Z03', 'Threads do not race: shared state is only touched under its lock',
 'State shared between the message thread, worker threads and API threads of the node is never read and written at the same time without synchronisation, and locks are never taken in opposite order.',
 'schedules', 'all interleavings of all threads', 'A race shows in one interleaving among billions.',
 ['src/Node.cpp', 'src/Node_api.cpp', 'src/DataBase.cpp'], [('locks', 'src/Node.cpp: db_mutex; src/DataBase.cpp: mutex')],
 'Which thread runs a method is decided by the vnx-base framework (pipes, async requests, thread pools) whose sources are not part of this checkout, so thread ownership of a field cannot be derived from /repo. The places where the code itself hands work to threads and locks around shared results are claimed in N08, N10, D01 and E02.')
na('Z04', 'Compiled contracts do what their source says',
 'The contract compiler turns every accepted source program into code whose execution has the meaning of that program.',
 'inputs', 'all source programs and all executions', 'Tests compile a few programs; the claim is about every program.',
 ['src/vm/Compiler.cpp'], [('compiler', 'src/vm/Compiler.cpp: compile, vstatement, vexpression')],
 'Needs a formal meaning of the source language, which exists only as this compiler and its grammar (lexy, not part of this checkout); a static comparison would compare the compiler with itself. The meaning of the instructions themselves is claimed in E01-E05.')

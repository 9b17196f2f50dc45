BUILD = 'The node is not built here (submodules missing) and no stable test runs it; '
prop('D01', 'Lookups and iterators see exactly the newest permitted version of every key',
 'A lookup in a table returns the newest value written at or below the given version, whether it still sits in memory or in a file, and nothing if there is none. Iterators visit every key exactly once in order, forwards and backwards, from the first key that meets the seek condition, always showing the newest value, and cannot be outrun by a concurrent write.',
 'inputs histories', 'all sets of keys, versions, blocks on disk and seek positions', BUILD + 'a skipped or stale entry needs a particular mix of files, versions and keys.',
 ['src/DataBase.cpp'], [('table lookups', 'src/DataBase.cpp: Table::insert, find, lower_bound, Table::Iterator')])
prop('D02', 'Database commit, revert, flush and reload keep exactly the committed state',
 'A version counts as committed only after its log record was flushed to its file; reverting, flushing, merging and dropping files happen in an order that leaves the committed state recoverable at every point, and reloading rejects or ignores whatever was not completed. All tables of a database report and return to one common version, and every stored entry is read back as written or reported as damaged.',
 'histories crash-points inputs', 'all histories of commits, reverts, flushes and merges and all crash points between their disk operations', BUILD + 'a wrong order shows only when the process dies in between.',
 ['src/DataBase.cpp', 'include/mmx/DataBase.h'], [('table files', 'src/DataBase.cpp: Table constructor, read_block, commit, revert, flush, rewrite, check_rewrite, rename, finish_block; entry encodings; DataBase')])

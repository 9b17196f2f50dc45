tus src/Node.cpp src/Node_validate.cpp src/Router.cpp
fn mmx::Node::on_stuck_timeout
each start_sync(false)
never throw …
exit {did start_sync(false)}
at start_sync(false)
fn mmx::Node::start_sync
each @is_synced = false ;; {$0} | {@is_synced} ;; {$0} | {@do_sync}
each @sync_pos = 0 ;; {$0} | {@is_synced} ;; {$0} | {@do_sync}
each @sync_peak = 0 ;; {$0} | {@is_synced} ;; {$0} | {@do_sync}
each @sync_retry = 0 ;; {$0} | {@is_synced} ;; {$0} | {@do_sync}
each sync_more() ;; {$0} | {@is_synced} ;; {$0} | {@do_sync}
never throw …
exit !{$0} | {did @is_synced = false}
exit !{$0} | {did @sync_peak = 0}
exit !{$0} | {did @sync_pos = 0}
exit !{$0} | {did @sync_retry = 0}
exit !{$0} | {did sync_more()}
exit !{@do_sync} | !{@is_synced} | {did @is_synced = false}
exit !{@do_sync} | !{@is_synced} | {did @sync_peak = 0}
exit !{@do_sync} | !{@is_synced} | {did @sync_pos = 0}
exit !{@do_sync} | !{@is_synced} | {did @sync_retry = 0}
exit !{@do_sync} | !{@is_synced} | {did sync_more()}
at lock_guard(@db_mutex) ;; {$0} | {@is_synced} ;; {$0} | {@do_sync}
at @is_synced = false ;; {$0} | {@is_synced} ;; {$0} | {@do_sync}
at @sync_pos = 0 ;; {$0} | {@is_synced} ;; {$0} | {@do_sync}
at @sync_peak = 0 ;; {$0} | {@is_synced} ;; {$0} | {@do_sync}
at @sync_retry = 0 ;; {$0} | {@is_synced} ;; {$0} | {@do_sync}
at sync_more() ;; {$0} | {@is_synced} ;; {$0} | {@do_sync}
fn mmx::Node::revert_sync
each revert($0) ;; !{get_root().height < $0}
each reset() ;; !{get_root().height < $0}
each start_sync(true)
never throw …
exit {did start_sync(true)}
exit {did reset()} | {get_root().height < $0}
exit {did revert($0)} | {get_root().height < $0}
at revert($0) ;; !{get_root().height < $0}
at reset() ;; !{get_root().height < $0}
at start_sync(true)
fn mmx::Node::sync_more
never break(loop)
each @sync_pos = (get_root().height + 1) ;; !{@is_synced} ;; !{@sync_pos}
each @sync_start = (get_root().height + 1) ;; !{@is_synced} ;; !{@sync_pos}
each @sync_pos = (@sync_pos + 1) ;; !{@is_synced} ;; !{(@max_sync_ahead + @params.commit_delay) < (-get_root().height + @sync_pos)} | !{get_root().height < @sync_pos} ;; {@sync_retry} | {size(@sync_pending) < max(4, min(@max_sync_jobs, i32(@max_sync_pending)))} ;; !{1 < size(@sync_pending)} | !{@sync_retry} ;; !{1 < size(@sync_pending)} | {size(@sync_pending) < max(4, min(@max_sync_jobs, i32(@max_sync_pending)))} ;; !{@sync_peak} | {@sync_pos < @sync_peak}
each sync_height(@sync_pos) ;; !{@is_synced} ;; !{(@max_sync_ahead + @params.commit_delay) < (-get_root().height + @sync_pos)} | !{get_root().height < @sync_pos} ;; {@sync_retry} | {size(@sync_pending) < max(4, min(@max_sync_jobs, i32(@max_sync_pending)))} ;; !{1 < size(@sync_pending)} | !{@sync_retry} ;; !{1 < size(@sync_pending)} | {size(@sync_pending) < max(4, min(@max_sync_jobs, i32(@max_sync_pending)))} ;; !{@sync_peak} | {@sync_pos < @sync_peak}
never throw …
exit {@is_synced} | {@sync_pos} | {did @sync_pos = (get_root().height + 1)}
exit {@is_synced} | {@sync_pos} | {did @sync_start = (get_root().height + 1)}
exit !{@sync_pos < @sync_peak} | !{@sync_retry} | {(@max_sync_ahead + @params.commit_delay) < (-get_root().height + @sync_pos)} | {1 < size(@sync_pending)} | {@is_synced}
exit !{@sync_pos < @sync_peak} | !{@sync_retry} | {1 < size(@sync_pending)} | {@is_synced} | {get_root().height < @sync_pos}
exit !{@sync_pos < @sync_peak} | !{size(@sync_pending) < max(4, min(@max_sync_jobs, i32(@max_sync_pending)))} | {(@max_sync_ahead + @params.commit_delay) < (-get_root().height + @sync_pos)} | {@is_synced} | {@sync_retry}
exit !{@sync_pos < @sync_peak} | !{size(@sync_pending) < max(4, min(@max_sync_jobs, i32(@max_sync_pending)))} | {@is_synced} | {@sync_retry} | {get_root().height < @sync_pos}
exit !{@sync_retry} | {(@max_sync_ahead + @params.commit_delay) < (-get_root().height + @sync_pos)} | {1 < size(@sync_pending)} | {@is_synced} | {@sync_peak}
exit !{@sync_retry} | {1 < size(@sync_pending)} | {@is_synced} | {@sync_peak} | {get_root().height < @sync_pos}
exit !{size(@sync_pending) < max(4, min(@max_sync_jobs, i32(@max_sync_pending)))} | {(@max_sync_ahead + @params.commit_delay) < (-get_root().height + @sync_pos)} | {@is_synced} | {@sync_peak} | {@sync_retry}
exit !{size(@sync_pending) < max(4, min(@max_sync_jobs, i32(@max_sync_pending)))} | {@is_synced} | {@sync_peak} | {@sync_retry} | {get_root().height < @sync_pos}
at @sync_pos = (get_root().height + 1) ;; !{@is_synced} ;; !{@sync_pos}
at @sync_start = (get_root().height + 1) ;; !{@is_synced} ;; !{@sync_pos}
at @sync_pos = (@sync_pos + 1) ;; !{@is_synced} ;; !{(@max_sync_ahead + @params.commit_delay) < (-get_root().height + @sync_pos)} | !{get_root().height < @sync_pos} ;; {@sync_retry} | {size(@sync_pending) < max(4, min(@max_sync_jobs, i32(@max_sync_pending)))} ;; !{1 < size(@sync_pending)} | !{@sync_retry} ;; !{1 < size(@sync_pending)} | {size(@sync_pending) < max(4, min(@max_sync_jobs, i32(@max_sync_pending)))} ;; !{@sync_peak} | {@sync_pos < @sync_peak}
at sync_height(@sync_pos) ;; !{@is_synced} ;; !{(@max_sync_ahead + @params.commit_delay) < (-get_root().height + @sync_pos)} | !{get_root().height < @sync_pos} ;; {@sync_retry} | {size(@sync_pending) < max(4, min(@max_sync_jobs, i32(@max_sync_pending)))} ;; !{1 < size(@sync_pending)} | !{@sync_retry} ;; !{1 < size(@sync_pending)} | {size(@sync_pending) < max(4, min(@max_sync_jobs, i32(@max_sync_pending)))} ;; !{@sync_peak} | {@sync_pos < @sync_peak}
fn mmx::Node::sync_height
each insert(@sync_pending, $0)
each get_blocks_at(@router, $0, bind(&sync_result, this, $0, std::placeholders::_1), lambda)
each @sync_pos = min($0, @sync_pos)
each erase(@sync_pending, $0)
never throw …
exit {did get_blocks_at(@router, $0, bind(&sync_result, this, $0, std::placeholders::_1), lambda)}
exit {did insert(@sync_pending, $0)}
at insert(@sync_pending, $0)
at get_blocks_at(@router, $0, bind(&sync_result, this, $0, std::placeholders::_1), lambda)
at @sync_pos = min($0, @sync_pos)
at erase(@sync_pending, $0)
fn mmx::Node::sync_result
each erase(@sync_pending, $0)
each push_back(%vector<shared_ptr<Block>>, elem($1)) ;; {elem($1).time_stamp < ((@max_future_sync * @params.block_interval_ms) + get_time_ms())}
each add_block(elem(%vector<shared_ptr<Block>>))
each @sync_start = (@sync_start + -1) ;; {$0 == @sync_start} ;; !{find_prev(elem(%vector<shared_ptr<Block>>), 1, false)} ;; {1 < @sync_start}
each sync_height((@sync_start + -1)) ;; {$0 == @sync_start} ;; !{find_prev(elem(%vector<shared_ptr<Block>>), 1, false)} ;; {1 < @sync_start}
each @max_sync_pending = (((-min((f64(total(%vector<shared_ptr<Block>>, elem(%vector<shared_ptr<Block>>).static_cost)) / f64(@params.max_block_size)), 1) + 1) * 0.10000000000000001 * f64(@max_sync_jobs)) + (0.90000000000000002 * @max_sync_pending))
each @sync_peak = $0 ;; !{@is_synced} ;; {empty(%vector<shared_ptr<Block>>)} ;; !{@sync_peak} | {$0 < @sync_peak}
each update() ;; !{@is_synced} ;; !{($0 % @max_sync_jobs)} | {empty(@sync_pending)} ;; !{@sync_retry}
each sync_more() ;; !{@is_synced} ;; {($0 % @max_sync_jobs)} | {@sync_retry} ;; !{empty(@sync_pending)} | {@sync_retry}
never break($1)
never break(%vector<shared_ptr<Block>>)
never throw …
exit {did @max_sync_pending = (((-min((f64(total(%vector<shared_ptr<Block>>, elem(%vector<shared_ptr<Block>>).static_cost)) / f64(@params.max_block_size)), 1) + 1) * 0.10000000000000001 * f64(@max_sync_jobs)) + (0.90000000000000002 * @max_sync_pending))}
exit {did add_block(elem(%vector<shared_ptr<Block>>))}
exit {did erase(@sync_pending, $0)}
exit !{elem($1).time_stamp < ((@max_future_sync * @params.block_interval_ms) + get_time_ms())} | {did push_back(%vector<shared_ptr<Block>>, elem($1))}
exit !{@sync_retry} | {@is_synced} | {did sync_more()}
exit !{$0 < @sync_peak} | !{empty(%vector<shared_ptr<Block>>)} | {@is_synced} | {did @sync_peak = $0}
exit !{$0 == @sync_start} | !{1 < @sync_start} | {did @sync_start = (@sync_start + -1)} | {find_prev(elem(%vector<shared_ptr<Block>>), 1, false)}
exit !{$0 == @sync_start} | !{1 < @sync_start} | {did sync_height((@sync_start + -1))} | {find_prev(elem(%vector<shared_ptr<Block>>), 1, false)}
exit !{($0 % @max_sync_jobs)} | {@is_synced} | {did sync_more()} | {empty(@sync_pending)}
exit !{empty(%vector<shared_ptr<Block>>)} | {@is_synced} | {@sync_peak} | {did @sync_peak = $0}
exit !{empty(@sync_pending)} | {@is_synced} | {@sync_retry} | {did update()}
exit {($0 % @max_sync_jobs)} | {@is_synced} | {@sync_retry} | {did update()}
at erase(@sync_pending, $0)
at push_back(%vector<shared_ptr<Block>>, elem($1)) ;; {elem($1).time_stamp < ((@max_future_sync * @params.block_interval_ms) + get_time_ms())}
at add_block(elem(%vector<shared_ptr<Block>>))
at @sync_start = (@sync_start + -1) ;; {$0 == @sync_start} ;; !{find_prev(elem(%vector<shared_ptr<Block>>), 1, false)} ;; {1 < @sync_start}
at sync_height((@sync_start + -1)) ;; {$0 == @sync_start} ;; !{find_prev(elem(%vector<shared_ptr<Block>>), 1, false)} ;; {1 < @sync_start}
at @max_sync_pending = (((-min((f64(total(%vector<shared_ptr<Block>>, elem(%vector<shared_ptr<Block>>).static_cost)) / f64(@params.max_block_size)), 1) + 1) * 0.10000000000000001 * f64(@max_sync_jobs)) + (0.90000000000000002 * @max_sync_pending))
at @sync_peak = $0 ;; !{@is_synced} ;; {empty(%vector<shared_ptr<Block>>)} ;; !{@sync_peak} | {$0 < @sync_peak}
at update() ;; !{@is_synced} ;; !{($0 % @max_sync_jobs)} | {empty(@sync_pending)} ;; !{@sync_retry}
at sync_more() ;; !{@is_synced} ;; {($0 % @max_sync_jobs)} | {@sync_retry} ;; !{empty(@sync_pending)} | {@sync_retry}
fn mmx::Node::fetch_block
each insert(@fetch_pending, $0)
each fetch_block(@router, $0, 0, bind(&fetch_result, this, $0, std::placeholders::_1), lambda) ;; {inserted(@fetch_pending, $0)}
each erase(@fetch_pending, $0) ;; {inserted(@fetch_pending, $0)}
never throw …
exit {did insert(@fetch_pending, $0)}
exit !{inserted(@fetch_pending, $0)} | {did fetch_block(@router, $0, 0, bind(&fetch_result, this, $0, std::placeholders::_1), lambda)}
at insert(@fetch_pending, $0)
at fetch_block(@router, $0, 0, bind(&fetch_result, this, $0, std::placeholders::_1), lambda) ;; {inserted(@fetch_pending, $0)}
at erase(@fetch_pending, $0) ;; {inserted(@fetch_pending, $0)}
fn mmx::Node::fetch_result
each add_block($1) ;; {$1}
each erase(@fetch_pending, $0)
never throw …
exit {did erase(@fetch_pending, $0)}
exit !{$1} | {did add_block($1)}
at add_block($1) ;; {$1}
at erase(@fetch_pending, $0)
fn mmx::Node::trigger_update
each @update_pending = true ;; !{@update_pending}
each add_task(bind(&update, this)) ;; !{@update_pending}
never throw …
exit {@update_pending} | {did @update_pending = true}
exit {@update_pending} | {did add_task(bind(&update, this))}
at @update_pending = true ;; !{@update_pending}
at add_task(bind(&update, this)) ;; !{@update_pending}
fn mmx::Node::handle sig=mmx::Block>
each add_block($0) ;; {@is_synced} | {@sync_peak}
never throw …
exit !{@is_synced} | {did add_block($0)}
exit !{@sync_peak} | {did add_block($0)}
at add_block($0) ;; {@is_synced} | {@sync_peak}

tus src/ProofOfSpaceOG.cpp src/ProofOfSpaceNFT.cpp src/ProofOfSpace.cpp src/ProofOfTime.cpp src/ProofResponse.cpp src/VDF_Point.cpp src/ValidatorVote.cpp src/Partial.cpp
fn mmx::ProofOfSpaceOG::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "score", @score) ;; write_field(%WriteBytes, "plot_id", @plot_id) ;; write_field(%WriteBytes, "challenge", @challenge) ;; write_field(%WriteBytes, "difficulty", @difficulty) ;; write_field(%WriteBytes, "farmer_key", @farmer_key) ;; write_field(%WriteBytes, "ksize", @ksize) ;; write_field(%WriteBytes, "seed", @seed) ;; write_field(%WriteBytes, "proof_xs", @proof_xs)
fn mmx::ProofOfSpaceOG::validate
at ctor:bytes_t<1>(@ksize, 1)
raise !{@plot_id == ctor(hash_t, ((("MMX/PLOTID/OG" ++ ctor(bytes_t<1>, @ksize, 1)) ++ @seed) ++ @farmer_key))}
exit {@plot_id == ctor(hash_t, ((("MMX/PLOTID/OG" ++ ctor(bytes_t<1>, @ksize, 1)) ++ @seed) ++ @farmer_key))}
fn mmx::ProofOfSpaceOG::is_valid
false !{is_valid()} | !{0 < @ksize} | {256 < size(@proof_xs)}
never throw …
true {is_valid()}
true {0 < @ksize}
true !{256 < size(@proof_xs)}
fn mmx::ProofOfSpaceNFT::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "score", @score) ;; write_field(%WriteBytes, "plot_id", @plot_id) ;; write_field(%WriteBytes, "challenge", @challenge) ;; write_field(%WriteBytes, "difficulty", @difficulty) ;; write_field(%WriteBytes, "farmer_key", @farmer_key) ;; write_field(%WriteBytes, "ksize", @ksize) ;; write_field(%WriteBytes, "seed", @seed) ;; write_field(%WriteBytes, "proof_xs", @proof_xs) ;; write_field(%WriteBytes, "contract", @contract)
fn mmx::ProofOfSpaceNFT::validate
raise !{@plot_id == ctor(hash_t, (((("MMX/PLOTID/NFT" ++ ctor(bytes_t<1>, @ksize, 1)) ++ @seed) ++ @farmer_key) ++ @contract))}
exit {@plot_id == ctor(hash_t, (((("MMX/PLOTID/NFT" ++ ctor(bytes_t<1>, @ksize, 1)) ++ @seed) ++ @farmer_key) ++ @contract))}
fn mmx::ProofOfSpaceNFT::is_valid
false !{is_valid()} | !{0 < @ksize} | {256 < size(@proof_xs)}
never throw …
true {is_valid()}
true {0 < @ksize}
true !{256 < size(@proof_xs)}
fn mmx::ProofOfSpace::is_valid
never throw …
fn mmx::ProofOfSpace::calc_hash
exit {never returns}
fn mmx::ProofOfSpace::validate
exit {never returns}
fn mmx::ProofOfTime::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "version", @version) ;; write_field(%WriteBytes, "vdf_height", @vdf_height) ;; write_field(%WriteBytes, "start", @start) ;; write_field(%WriteBytes, "num_iters", @num_iters) ;; write_field(%WriteBytes, "segment_size", @segment_size) ;; write_field(%WriteBytes, "input", @input) ;; write_field(%WriteBytes, "prev", @prev) ;; write_field(%WriteBytes, "reward_addr", @reward_addr) ;; write_field(%WriteBytes, "segments", @segments)
fn mmx::ProofOfTime::calc_content_hash
never throw …
exit {ret = ctor(hash_t, ((@hash ++ @timelord_key) ++ @timelord_sig))}
fn mmx::ProofOfTime::validate
raise !{verify(@timelord_sig, @timelord_key, @hash)}
exit {verify(@timelord_sig, @timelord_key, @hash)}
fn mmx::ProofOfTime::is_valid
false {@version} | !{@vdf_height} | !{@num_iters} | {empty(@segments)} | !{@hash == calc_hash()} | !{@content_hash == calc_content_hash()}
never throw …
true !{@version}
true {@vdf_height}
true {@num_iters}
true !{empty(@segments)}
true {@hash == calc_hash()}
true {@content_hash == calc_content_hash()}
fn mmx::ProofResponse::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "vdf_height", @vdf_height) ;; write_field(%WriteBytes, "proof", ite({@proof}, calc_hash(@proof), ctor(hash_t)))
fn mmx::ProofResponse::calc_content_hash
never throw …
exit {ret = ctor(hash_t, (@hash ++ @farmer_sig))}
fn mmx::ProofResponse::validate
each validate(@proof) ;; {@proof}
raise !{@proof}
raise {@proof} ;; !{verify(@farmer_sig, @proof.farmer_key, @hash)}
exit {@proof}
exit {did validate(@proof)}
exit {verify(@farmer_sig, @proof.farmer_key, @hash)}
at validate(@proof)
fn mmx::ProofResponse::is_valid
false !{@proof} | !{is_valid(@proof)} | {1023 < size(@harvester)} | !{@hash == calc_hash()} | !{@content_hash == calc_content_hash()}
never throw …
true {@proof}
true {is_valid(@proof)}
true !{1023 < size(@harvester)}
true {@hash == calc_hash()}
true {@content_hash == calc_content_hash()}
fn mmx::VDF_Point::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "vdf_height", @vdf_height) ;; write_field(%WriteBytes, "start", @start) ;; write_field(%WriteBytes, "num_iters", @num_iters) ;; write_field(%WriteBytes, "input", @input) ;; write_field(%WriteBytes, "output", @output) ;; write_field(%WriteBytes, "prev", @prev) ;; write_field(%WriteBytes, "reward_addr", @reward_addr)
fn mmx::VDF_Point::is_valid
false !{@content_hash == calc_hash()}
never throw …
true {@content_hash == calc_hash()}
fn mmx::ValidatorVote::is_valid
false !{@content_hash == calc_content_hash()} | !{verify(@farmer_sig, @farmer_key, ctor(hash_t, (("MMX/validator/vote/" ++ @hash) ++ @farmer_key)))}
never throw …
true {@content_hash == calc_content_hash()}
true {verify(@farmer_sig, @farmer_key, ctor(hash_t, (("MMX/validator/vote/" ++ @hash) ++ @farmer_key)))}
fn mmx::ValidatorVote::calc_content_hash
never throw …
exit {ret = ctor(hash_t, ((@hash ++ @farmer_key) ++ @farmer_sig))}
fn mmx::Partial::calc_hash
never break(@proof.proof_xs)
never throw …
value fold((((((((((((((((((((((((((((((((get_type_name() ++ "/") ++ "vdf_height:") ++ to_string(@vdf_height)) ++ "contract:") ++ to_string(@contract)) ++ "account:") ++ to_string(@account)) ++ "pool_url:") ++ @pool_url) ++ "harvester:") ++ @harvester) ++ "lookup_time_ms:") ++ to_string(@lookup_time_ms)) ++ "proof:") ++ get_type_name(@proof)) ++ "/") ++ "score:") ++ to_string(@proof.score)) ++ "plot_id:") ++ to_string(@proof.plot_id)) ++ "challenge:") ++ to_string(@proof.challenge)) ++ "difficulty:") ++ to_string(@proof.difficulty)) ++ "farmer_key:") ++ to_string(@proof.farmer_key)) ++ "ksize:") ++ to_string(@proof.ksize)) ++ "seed:") ++ to_string(@proof.seed)) ++ "proof_xs:"), ((~ ++ to_string(elem(@proof.proof_xs))) ++ ","), @proof.proof_xs)
exit {ret = ctor(hash_t, ite((!{@proof} || !{is<ProofOfSpaceNFT>(@proof)}), ite({@proof}, ((((((((((((((((((((((((((get_type_name() ++ "/") ++ "vdf_height:") ++ to_string(@vdf_height)) ++ "contract:") ++ to_string(@contract)) ++ "account:") ++ to_string(@account)) ++ "pool_url:") ++ @pool_url) ++ "harvester:") ++ @harvester) ++ "lookup_time_ms:") ++ to_string(@lookup_time_ms)) ++ "proof:") ++ get_type_name(@proof)) ++ "/") ++ "score:") ++ to_string(@proof.score)) ++ "plot_id:") ++ to_string(@proof.plot_id)) ++ "challenge:") ++ to_string(@proof.challenge)) ++ "difficulty:") ++ to_string(@proof.difficulty)) ++ "farmer_key:") ++ to_string(@proof.farmer_key)), ((((((((((((((get_type_name() ++ "/") ++ "vdf_height:") ++ to_string(@vdf_height)) ++ "contract:") ++ to_string(@contract)) ++ "account:") ++ to_string(@account)) ++ "pool_url:") ++ @pool_url) ++ "harvester:") ++ @harvester) ++ "lookup_time_ms:") ++ to_string(@lookup_time_ms)) ++ "proof:")), ((… ++ "contract:") ++ to_string(@proof.contract))))}

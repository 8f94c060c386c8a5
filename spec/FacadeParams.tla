---------------------------- MODULE FacadeParams ----------------------------
(* The documented constructors: their parameters in order, how many of them   *)
(* can be given by position, and the constructors the factory functions       *)
(* hand them on to.                                                           *)
EXTENDS Base
AlsHead == <<"factors", "regularization", "alpha", "dtype", "use_native", "use_cg">>
AlsTail == <<"iterations", "calculate_training_loss", "num_threads", "random_state">>
Ann == <<"approximate_similar_items", "approximate_recommend">>
Entries == {"als", "cpu.als", "bpr", "cpu.bpr", "lmf", "cpu.lmf", "annoy_als", "faiss_als", "nmslib_als",
            "item", "cosine", "tfidf", "bm25"}
Params(e) ==
  CASE e = "als" -> AlsHead \o <<"use_gpu">> \o AlsTail
    [] e = "cpu.als" -> AlsHead \o AlsTail
    [] e = "bpr" -> <<"factors", "learning_rate", "regularization", "dtype", "iterations", "use_gpu", "num_threads",
                      "verify_negative_samples", "random_state">>
    [] e = "cpu.bpr" -> <<"factors", "learning_rate", "regularization", "dtype", "iterations", "num_threads",
                          "verify_negative_samples", "random_state">>
    [] e = "lmf" -> <<"factors", "learning_rate", "regularization", "dtype", "iterations", "neg_prop", "use_gpu",
                      "num_threads", "random_state">>
    [] e = "cpu.lmf" -> <<"factors", "learning_rate", "regularization", "dtype", "iterations", "neg_prop",
                          "num_threads", "random_state">>
    [] e = "annoy_als" -> AlsHead \o AlsTail \o <<"use_gpu">> \o Ann \o <<"n_trees", "search_k">>
    [] e = "faiss_als" -> AlsHead \o AlsTail \o <<"use_gpu">> \o Ann \o <<"nlist", "nprobe">>
    [] e = "nmslib_als" -> AlsHead \o AlsTail \o <<"use_gpu">> \o Ann \o <<"method", "index_params", "query_params">>
    [] e = "bm25" -> <<"K", "K1", "B", "num_threads">>
    [] OTHER -> <<"K", "num_threads">>
\* the approximate factories take the leading ALS parameters by position, the rest by name
Positional(e) == IF e \in {"annoy_als", "faiss_als", "nmslib_als"} THEN Len(AlsHead) ELSE Len(Params(e))
Inner(e) == CASE e \in {"als", "annoy_als", "faiss_als", "nmslib_als"} -> "cpu.als"
              [] e = "bpr" -> "cpu.bpr" [] e = "lmf" -> "cpu.lmf" [] OTHER -> e
\* the parameters a call with k positions and these names gives
Given(e, k, named) == {Params(e)[j] : j \in 1..k} \cup named
=============================================================================

# id: (technique, level note)
B = "TLA+/TLC: "
NOTE = {
 "C01": (B + "Select.tla model checked; TLC-enumerated and random queries on the real models, answers validated by TraceQuery.tla (exact integer arithmetic)",
         "every pattern of ties, filters and k for small catalogues in the model; on the real code all TLC-generated small catalogues plus random and sweep inputs up to thousands of items"),
 "C02": (B + "answers of similar_items / similar_users validated by TraceQuery.tla, which compares cosines exactly by cross-multiplied integers",
         "all catalogues of 3 vectors of a 9-vector grid (thorough; sampled in quick) plus random ones with zero and parallel vectors"),
 "C03": (B + "TLC enumerates filter x selection x N inputs (GenQuery.tla); answers validated by TraceQuery.tla", "all small combinations plus random large ones"),
 "C04": (B + "BatchPlan.tla explores all schedules of the row blocks; real batch and single answers validated by TraceBatch.tla", "batch sizes around the internal block size, 1..1001, any thread count"),
 "C05": (B + "Scorer.tla / CacheFill.tla explore all interleavings; histories, every single preemption point and free-running threads of the real code validated by TracePurity.tla", "real thread schedules: one preemption at every Python line, otherwise sampled"),
 "C06": (B + "Lifecycle.tla; every history up to a depth replayed on real models, answers validated by TraceLifecycle.tla", "all histories of length 3 (quick) / 4 (thorough) plus random ones up to 12"),
 "C07": (B + "AlsObjective.tla shows the normal equations are the minimiser; recorded solutions validated by exact residuals in TraceAls.tla", "factors up to 33, integer factors, dyadic confidences"),
 "C08": (B + "AlsSchedule.tla (all schedules of the half steps); recorded fits validated by TraceAlsFit.tla", "first iteration exact, later ones through the solver verified by C07"),
 "C09": (B + "PartialFit.tla; TLC-generated histories replayed, validated by TracePartialFit.tla", "all histories up to a depth, random ones up to 10"),
 "C10": (B + "ExplainIdentity.tla; recorded explanations validated by TraceExplain.tla with verified witnesses", "factors up to 8, 16 items"),
 "C11": (B + "KnnParallel.tla explores all schedules; TLC-enumerated matrices fitted by the real code, validated by TraceKnn.tla", "all 2x3 and 3x3 0/1/2 matrices (thorough: 2x4, 3x4), random ones up to 30x40 and wide ones"),
 "C12": (B + "ItemQuery.tla for all small inputs; recorded answers validated by TraceItem.tla", "exact for integer similarities"),
 "C13": (B + "TakeTails.tla for all small inputs; recorded splits validated by TraceSplit.tla", "all count patterns of 3 users, random matrices; randomness judged over hundreds of seeds"),
 "C14": (B + "MetricsLoop.tla for all small lists; recorded metrics validated by TraceMetrics.tla (fixed point, verified logarithm table)", "to 10^-5"),
 "C15": (B + "SaveLoad.tla; TLC-generated histories of a model and its copies replayed, validated by TraceSave.tla", "all histories up to a depth x classes x ways to save"),
 "C16": (B + "BprParallel.tla; TLC explores all sample sequences of recorded tiny trainings (TraceBprReach.tla), frames and counts validated by TraceBpr.tla", "reachability for tiny matrices; frame, counts and coverage for all sizes and thread counts"),
 "C17": (B + "LmfParallel.tla; recorded epochs validated by TraceLmf.tla (fixed point, verified sigmoid table), unknown negatives searched by TLC", "rows of up to a few entries exact to about 1%"),
 "C18": (B + "AnnQuery.tla for all small inputs; recorded answers of the three wrappers validated by TraceAnn.tla", "the installed annoy, faiss and nmslib; exhaustive searches compared with the exact answer"),
 "C19": (B + "DownloadCache.tla explores all crash points and two callers; real calls against a faulty loopback server, killed at every file change, validated by TraceDownload.tla", "all histories up to a depth"),
 "C20": (B + "Repro.tla; TLC-generated histories replayed in two processes, validated by TraceRepro.tla", "all histories of length 3 (thorough 4) x models x kinds of random_state"),
 "C21": (B + "Inputs.tla; TLC-generated histories of valid and invalid calls replayed, verdicts decided by Verdict.tla / TraceInputs.tla", "all pairs (thorough: triples) of calls and faults x models"),
 "C22": (B + "Facade.tla / FacadeParams.tla enumerate the call shapes of every constructor; objects, fits and deprecated calls of the real code validated by TraceFacade.tla", "all prefixes of positional arguments x up to 1 (thorough 3) named ones, or all of them; random selections and offsets"),
}

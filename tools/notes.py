TECH = {
 'C01': 'seeded delivery histories, refinement against a reference ledger after every step',
 'C02': 'seeded histories with rejected calls and allocation failures at every array operation, compared with an untouched twin',
 'C03': 'seeded delivery orders, batchings and read schedules against a freshly built model',
 'C04': 'seeded placement of failing linear-algebra calls and disk writes, compared with the fault-free run',
 'C05': 'interrupt injected at a seeded source line, recovery compared with the uninterrupted run',
 'C06': 'seeded query/answer histories of all learners, invariants of the selection contract',
 'C07': 'seeded selections, failing ones included, with the model compared before and after',
 'C08': 'learner with seeded history and faults against a fresh learner on the same random state',
 'C09': 'seeded selection/failure/attach histories against executable protocol models',
 'C10': 'sessions rerun under different hash seeds, clocks, worker orders and prior activity; transcripts compared',
 'C11': 'sessions interleaved by a seeded scheduler, transcripts compared with running alone',
 'C12': 'seeded random starts, adversarial ones included, against an independent posterior',
 'C13': 'seeded and scripted random draws and callback failures, acceptance rule checked step by step',
 'C14': 'seeded and adversarial draws, validity invariants and uniformity over many seeds',
 'C15': 'seeded use histories of synthetic users against the stated choice model',
 'C16': 'real experiment driver with crashes, interrupts and disk faults at seeded file operations',
 'C17': 'seeded numerical faults and degenerate inputs over the public entry points, debugger and stdin behind seams',
 'C18': 'seeded read schedules, bit-exact comparison and random-state fingerprints',
 'C19': 'seeded hyperparameter searches, judged against a refit and scripted priors',
 'C20': 'whole experiment sessions under seeded faults, every result row recomputed from the model as it was then',
 'C21': 'learner histories with seeded faults, draws recorded behind the random seam, each step judged by an independent evaluation of the measure',
}
NOTES = {
 'C01': 'Sampled histories of up to 9 deliveries; index-carrying forms only as first delivery.',
 'C02': 'Sampled histories; the failing allocation is drawn over all array-building calls of the addition.',
 'C03': 'Sampled schedules of up to 6 deliveries; results equal within 0.01 (tolerance of the fit).',
 'C04': 'Sampled fault placements over nine routines and the diagnostic file; answers equal within 0.02.',
 'C05': 'Sampled source lines and linear-algebra calls; interrupts inside numpy/scipy code are represented by the calls into it.',
 'C06': 'Sampled query histories over all learners; the metric is checked for best, worst, UCB and random learners only.',
 'C07': 'Sampled selections with failures at sampled lines and calls; hyperparameter search off.',
 'C08': 'Sampled learner histories; equality of choices, not of internal state.',
 'C09': 'Sampled protocol histories; random protocols by exact tails of 1e-10, alignment where clear by 0.12.',
 'C10': 'Sampled sessions and environments, bit-exact; one BLAS thread.',
 'C11': 'Sampled interleavings of 2-4 sessions at step or source-line granularity, bit-exact.',
 'C12': 'Sampled data and scripted starts against an independent posterior; latent 1e-3, predictions 4e-3.',
 'C13': 'Sampled chains, every step judged; frequencies by a martingale bound of 1e-12.',
 'C14': 'Sampled sizes and draws; uniformity by a tail bound of 1e-12 per set.',
 'C15': 'Sampled use histories; distributions by tail bounds of 1e-12.',
 'C16': 'Sampled fault points of the real driver on a simulated disk; experiment runs themselves are stubbed.',
 'C17': 'Sampled inputs and faults over public entry points; bounded in numerical routines per call and processor time.',
 'C18': 'Sampled read schedules, bit-exact; piecewise within 1e-7.',
 'C19': 'Sampled searches; priors judged by Kolmogorov distance at 1e-9.',
 'C20': 'Sampled sessions of up to five queries; plots and k-medoids are stubbed.',
 'C21': 'Sampled histories of up to four selections with at most 20 samples; approxcdf is stubbed.',
}
NA = {
 'N01': 'A pure function of its arguments: no schedule, clock, I/O, randomness, failure or history can affect it, so simulation has nothing to decide (a symbolic or numeric differentiation check would be another technique).',
 'N02': 'A pure function of its arguments: no schedule, clock, I/O, randomness, failure or history can affect it.',
 'N03': 'A pure function of its arguments: no schedule, clock, I/O, randomness, failure or history can affect it.',
}

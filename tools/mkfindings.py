import json
F="""C02 bd78eb2 an addition that was rejected or ran out of memory part-way left points without their observations, or half of the observations
C01 bd78eb2 models kept the caller's arrays and changed them (ratings clipped in place), later changes by the caller changed the model
C02 5001d54 adding prior points that ran out of memory part-way kept the points, or shifted references without dropping points
C01 675dd63 adding prior points dropped rated or labelled points and left ratings and labels referring to other points
C01 4b77283 dominance pairs were missing or doubled depending on the order points were added in
C12 772eefd a singular Hessian made the fit walk downhill; linear models ended at arbitrary or reversed weights
C04 e70944e a failed factorisation was replaced by random numbers in predictions
C04 5077e16 covariances singular only to working precision gave arbitrary answers
C19 d2dc22b restarts drew parameters from each other's priors; a fold's fit was kept as the fit of the full data
C19 0b4fc90 the hyperparameter search stopped at covariances which the fit itself copes with
C06 11458fe selections returned repeated or previously selected points, too few points, or reported wrong not-selected points
C06 0b7f166 a pair was chosen from points outside the candidates left while reporting what was not selected
C17 7b7b77b failing numerical routines stopped in pdb.set_trace
C07 bb00fbb mixed learners changed the model's data during a selection and kept it on failure
C08 bb00fbb mixed learners used samples drawn for an earlier query
C08 89b14fe samples shared within one mixed query outlived a failed one
C16 e145a2f an interrupt or crash while saving left a truncated results file or rows of runs that never completed
C14 7910b22 sampling unique sets never ended when more were asked for than exist, and was biased
C02 6890163 observations that do not match the points given were stored
C02 ed21b99 uncertainties of a length other than the outputs' were stored
C02 4f877b6 undefined (NaN) references were stored as point numbers
C07 8cdc9f0 an alignment decision left the model refitted
C05 274c8fc an interrupt during an alignment decision left the model without its data
C12 02d362d the ordinal likelihood's curvature was wrong or undefined far from the label
C12 e736baf the mode search went downhill where the likelihood is not log-concave
C18 2356bdb predictions at a point depended on the other points asked for in the same call
C15 38974e2 reward functions valued a vector differently depending on the array's shape
C15 08e9d2d choice probabilities of a batch were scaled by another query's best option and underflowed to undefined
C15 a568921 calibration failed on environments of different sizes and returned undefined parameters for identical rewards
C17 d6b21c7 selecting among candidates whose covariance overflows, or fitting with an infinite curvature, never returned
C20 5ce783f ranking queries raised: the generator of ranking pairs returned nothing
C20 4809f9b experiments with a perfect user raised at once: the user had nothing to tune and no way to say so
C20 9511e8c experiments with a min-log utility raised when the first model state was recorded
C20 16d697a the selectors SW_ACQ_SPEAR and SW_DEC_LL ignored the requested representative points
C20 a4af783 the recorded Spearman correlation was that of sort orders, not of ranks
C20 388c3bd results had as many columns as environment 0 has evaluations: with other sizes values were repeated or the run raised
C21 9777570 an answer of probability zero on a sample made the mutual information of a query undefined, and an undefined query was asked
C21 d051552 a rating no sample can give (saturated beliefs) made the alignment of a rating query undefined, and an undefined query was asked
C21 f6ec2f1 later points of a best-candidate information query were picked by rounding noise: the raised probability was computed and not used
C15 a11d5e3 calibrating on rewards whose values are well apart silently returned a user who never errs, for any accuracy asked for
C21 6812be3 an answer of probability zero made the information about the best candidate undefined
"""
out={'findings':[], 'fixed':['fixed: property=%s %s %s'%tuple(l.split(' ',2)) for l in F.splitlines()]}
json.dump(out,open('/verif/known_findings.json','w'),indent=1)

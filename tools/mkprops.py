#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties lives here, one entry each)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))


S, M, T, F = "pocomc/sampler.py", "pocomc/mcmc.py", "pocomc/tools.py", "pocomc/flow.py"
p("C01", "Every particle in the history is one self-consistent point",
  "In the history returned by a run, every row is one point: re-evaluating the user's likelihood, prior and blobs at its position gives the stored values, and its stored latent coordinate and log-Jacobian are those of the same position. There is exactly one row per active particle per iteration, in order, labelled with its iteration index. Later iterations, continued runs and reads never alter the rows of an iteration that has been completed.",
  ["inputs", "configurations", "histories"], "every sampler configuration, every outcome of the random choices (accept/reject patterns, resampling picks, extreme proposals), every iteration",
  "Tests run a few random seeds and look at shapes; a row whose parts come from different points needs a particular accept/reject or resampling pattern to appear and still has the right shape.",
  [S, M, "pocomc/particles.py"], [("one index applied to every field", S + ":_resample,_reweight,posterior"), ("one mask applied to every field", M), ("append-only history", "pocomc/particles.py:update")],
  ["Sampler.results", "Sampler.posterior"], [("history", "per-iteration arrays of all fields", "pocomc/particles.py")])
p("C02", "Mutation accepts with the exact tempered-posterior Metropolis probability",
  "In every MCMC step of all four kernels a particle moves to its proposal exactly when an independent uniform number is below min(1, r), where r is the ratio (proposal over current) of prior times likelihood to the power of the inverse temperature times the volume factors of the parameter transform and the flow, divided for t-preconditioned Crank-Nicolson by the ratio of the fitted Student-t densities. Proposals are reversible with respect to that reference: mean-reverting with the conditional inverse-gamma scale for tpCN, symmetric with the fitted covariance for random-walk Metropolis. A rejected particle keeps all of its values; an accepted one takes all the values of its proposal, and the next step starts from them.",
  ["inputs", "histories"], "every current/proposed point of the lattice, temperature, bound type, transform, geometry, and every accept/reject history of up to three steps",
  "A wrong Jacobian, temperature or stale cached value biases the posterior silently; the tests only check that a run finishes and gives finite numbers.",
  [M], [("Metropolis factor", M + ":alpha"), ("proposal", M), ("accept mask", M)], ["return value of the kernels", "arguments of the likelihood and prior callbacks"])
p("C03", "Only finite points inside the prior support are evaluated and kept",
  "During a whole run the likelihood is only ever called at points with finite coordinates, inside the parameter bounds and with finite log-prior. Points with zero or undefined likelihood (minus infinity or NaN) or zero prior density are never accepted, stored or returned: every stored log-likelihood and log-prior is finite.",
  ["inputs", "histories", "configurations"], "every proposal including extreme ones, every pattern of zero-prior, zero-likelihood and undefined-likelihood regions, all kernels and bound types, warm-up, mutation and evidence stages",
  "The tests use benign likelihoods and priors; out-of-support proposals are rare and their handling is a mask that differs per kernel.",
  [S, M], [("finite masks", M), ("warm-up replacement of infinite likelihoods", S + ":run"), ("support mask of the evidence", S + ":_compute_evidence")], ["likelihood callback", "prior callback", "Sampler.results"])
p("C04", "Importance weights and SMC evidence are the exact balance-heuristic estimate",
  "For any particle history the importance weights at a given inverse temperature are those of the multiple-importance (balance heuristic) estimator over all iterations, normalised to one, and the evidence is the corresponding mean; the evidence recorded when the temperature advances, the final SMC evidence and the reported log-weights are these values. Adding a constant to every log-likelihood shifts the log-evidence by that constant and leaves the weights unchanged. Prior mass with zero likelihood lowers the evidence accordingly.",
  ["inputs", "histories"], "every history over small lattices of log-likelihoods (including extreme ones), temperatures and normalisations; every iteration of complete runs",
  "Tests check shapes of a single history; the estimator has to be right for every ladder, sample count and dynamic range.",
  ["pocomc/particles.py", S], [("balance heuristic", "pocomc/particles.py:compute_logw_and_logz")], ["Sampler.results['logw','logz']", "Sampler.evidence", "Particles.compute_logw_and_logz"])
p("C05", "The temperature ladder is monotone, hits its target and ends exactly when done",
  "Inverse temperatures start at 0, never decrease and never exceed 1; each step keeps the temperature if the sample size metric at it does not exceed the target, jumps to 1 if the metric at 1 reaches the target, and otherwise picks a temperature whose metric is within 1 percent of the target (the recorded value being the metric at the chosen temperature). With the dynamic option the target is rescaled only when the expected number of unique active particles leaves the 5 percent band around its initial ratio. A run always terminates, and does so at the first iteration with inverse temperature 1 (to 1e-4) and at least the requested total sample size.",
  ["inputs", "configurations", "histories"], "likelihoods from flat to extremely peaked, both metrics, dynamic or not, all small particle counts and targets, continued runs",
  "Non-termination, a skipped temperature or a premature stop only shows for particular likelihood scales and particle counts.",
  [S], [("bisection", S + ":_reweight"), ("termination test", S + ":_not_termination")], ["Sampler.results['beta','ess','logz']"])
p("C06", "Resampling is unbiased, bounded and never picks a zero-weight particle",
  "Systematic resampling returns exactly the requested number of valid indices, each index between the floor and the ceiling of size times weight, for every offset the generator can return (including both ends) and every weight vector; averaged over the offset the counts equal size times weight, and zero-weight entries are never selected. In a run both resampling schemes draw the active particles only from the current weighted history, in proportion to the trimmed importance weights.",
  ["inputs", "histories"], "all weight vectors of a lattice (zeros, ties, unnormalised, rounding-prone), all sizes, every combinatorially distinct offset",
  "The failing offsets and weights have measure zero or are rounding artefacts that a random test never draws.",
  [T, S], [("systematic resampling", T + ":systematic_resample"), ("resampling step", S + ":_resample")], ["systematic_resample", "Sampler.results"])
p("C07", "Weight trimming and sample-size utilities obey their definitions",
  "Trimming keeps exactly the samples whose weight reaches a percentile threshold, stays aligned with the samples, renormalises to one, keeps at least the requested fraction of the effective sample size and cuts as deep as the percentile grid allows. The effective sample size, unique sample size, relative effective sample size and evidence increment equal their definitions for every weight vector, are invariant to scaling and order, and lie within their bounds.",
  ["inputs"], "all weight vectors of a lattice with ties, zeros and extreme ratios, all thresholds and bin counts of a lattice",
  "Boundary weights (ties, one dominant weight, rounding at threshold 1.0) are not sampled by the tests.",
  [T], [("trim_weights", T), ("effective_sample_size / unique_sample_size / compute_ess / increment_logz", T)], ["return values"])
p("C08", "The parameter transform is an exact bijection with the right Jacobian",
  "For every combination of unbounded, half-bounded and bounded parameters, logit or probit transform, diagonal or full scaling, the forward map followed by the inverse returns the point, the inverse maps every latent value into the closed bounds, and the returned log-determinant is that of the inverse map. Points exactly on a bound are mapped to finite latent values; points outside the closed bounds or undefined (NaN) are rejected. Every row is transformed independently of the other rows.",
  ["inputs", "configurations"], "all bound-type combinations up to three parameters, both transforms, all scaling modes, a lattice of points including bounds, points next to bounds, and far tails",
  "The tests use random interior points of a few bound types.",
  ["pocomc/scaler.py", "pocomc/input_validation.py"], [("per-type masks", "pocomc/scaler.py:_create_masks"), ("forward/inverse", "pocomc/scaler.py")], ["Reparameterize.forward", "Reparameterize.inverse", "Reparameterize.fit"])
p("C09", "Periodic and reflective boundary conditions map into bounds consistently",
  "Applying boundary conditions puts every selected parameter inside its bounds, congruent to the input modulo the period for periodic parameters and mirrored at the bounds for reflective ones; points already inside, other parameters and the input array are unchanged. It terminates for every finite input, and sampler runs with such parameters keep every guarantee of runs without them.",
  ["inputs", "configurations"], "all subsets of periodic and reflective indices, a lattice of points up to many periods away and on the bounds, both signs",
  "Tests try points within one period.",
  ["pocomc/scaler.py", M], [("wrapping loops", "pocomc/scaler.py:apply_boundary_conditions_x")], ["Reparameterize.apply_boundary_conditions_x", "Sampler.results"])
p("C10", "A crash or I/O error while saving never destroys a checkpoint",
  "If the process dies, a write is torn, or an I/O call fails at any point of saving a state, the checkpoint path afterwards holds either the complete previous state or the complete new state, and every other checkpoint is untouched; if saving returns normally the new state is there. A failed save is reported as an error and leaves the sampler able to continue and save again; after a power loss that drops data not yet synced the same holds.",
  ["crash_points", "fault_sequences"], "every system call of the save path, before/after/torn at several lengths, every injected error, for first save, overwrite and saves within a run; every unsynced-write subset of the logged operations",
  "Tests only save and load without faults.",
  [S], [("write to temporary, fsync, rename", S + ":save_state")], ["files in the output directory", "Sampler.load_state"])
p("C11", "Resuming from any checkpoint continues exactly the interrupted run",
  "Take any checkpoint a run wrote (in warm-up, between iterations, or the final one), load it into a newly constructed sampler and continue with the same random stream: the history, evidence, call counter and posterior are identical to those of the run that was never interrupted. This holds for chains of interruptions as well.",
  ["crash_points", "histories", "configurations"], "every checkpoint of every saving frequency, every configuration of the grid, chains of up to two interruptions",
  "Tests resume from one checkpoint and only check that the run completes.",
  [S], [("state dictionary", S + ":save_state,load_state"), ("loop counters part of the state", S + ":run")], ["Sampler.results", "Sampler.evidence", "Sampler.posterior"])
p("C12", "Reading, saving and loading in any order is pure and always current",
  "In any sequence of running, continuing, reading results, posterior and evidence, saving and loading, every read reflects exactly the work done so far, and reads and saves never change what later operations compute. Loading a state restores exactly what was readable when it was saved, and continuing a run extends the history of the earlier one.",
  ["histories"], "all operation sequences up to a depth over the public session API, deduplicated by observable state",
  "Tests read once at the end; stale caches and shared arrays need a read, then more work, then another read.",
  [S, "pocomc/particles.py"], [("results cache invalidation", "pocomc/particles.py:update,compute_results"), ("state dictionary", S)], ["Sampler.results", "Sampler.posterior", "Sampler.evidence"])
p("C13", "The call counter equals the number of likelihood evaluations",
  "The reported number of likelihood calls after each iteration, and the total after the run including the evidence stage, equals the number of points at which the user's likelihood was evaluated (one per row when vectorised), also for continued and resumed runs. The counter never decreases.",
  ["histories", "configurations"], "all configurations, every pattern of in- and out-of-support proposals, continued and resumed runs",
  "Tests never count calls.",
  [S, M], [("counters", S + ":calls"), ("per-step counter", M)], ["Sampler.results['calls']", "Sampler.calls", "likelihood callback"])
p("C14", "Results do not depend on how the likelihood is executed",
  "For the same problem and seed, serial, vectorised and pool execution (any pool object with a map method, any number of workers, any order or timing in which tasks complete) give identical results, and extra positional and keyword arguments reach the likelihood unchanged in every mode. Every point is evaluated exactly once per request.",
  ["schedules", "configurations"], "all task completion orders of small batches, all execution modes, list- and iterator-returning pools, real process pools",
  "Tests only run one pool and check that it finishes.",
  [S, T], [("dispatch", S + ":_log_like"), ("argument wrapper", T + ":FunctionWrapper")], ["Sampler.results", "likelihood callback"])
p("C15", "The MPI pool returns ordered results, each task once, under every schedule",
  "MPIPool.map returns the results in task order with every task executed exactly once, for every number of tasks and workers and every interleaving of messages between master and workers; it never deadlocks or loses a worker, consecutive map calls do not mix, and closing the pool stops every worker exactly once.",
  ["schedules"], "all interleavings of master and worker message operations for small numbers of tasks, workers and consecutive maps, with buffered and synchronous sends",
  "There is no test of the MPI pool at all; its correctness is a message-passing protocol.",
  ["pocomc/parallel.py"], [("task ids as tags", "pocomc/parallel.py:map"), ("worker loop", "pocomc/parallel.py:wait"), ("idle worker set", "pocomc/parallel.py:map")], ["MPIPool.map", "MPIPool.close", "communicator"])
p("C16", "Importance-sampling evidence is exact for every support pattern",
  "With a preconditioned run and a positive number of evidence samples, the log-evidence is the log-mean over all drawn samples of likelihood times prior times Jacobian over flow density, samples outside the prior support or with zero or undefined likelihood contributing zero but still counting; the likelihood is evaluated only inside the support and the reported error is the bootstrap standard deviation of that estimate. Otherwise the SMC estimate is reported and no error is given.",
  ["inputs", "configurations"], "all patterns of in-support, out-of-support, zero-likelihood and undefined-likelihood evidence samples for small sample counts, several transforms and flows",
  "Tests check only that a number is returned.",
  [S], [("importance weights", S + ":_compute_evidence")], ["Sampler.evidence", "prior and likelihood callbacks"])
p("C17", "Mutation effort is bounded and the proposal scale stays usable",
  "Every mutation stage makes at least one and at most max(1, n_max_steps) steps, never stops right after a step that improved the mean log-density unless the maximum is reached, ends once the consecutive steps without improvement reach n_steps times the squared ratio of the optimal to the current proposal scale (the preconditioned random walk: at most n_steps), and reports the number of steps made and the mean acceptance probability of the last step. The proposal scale stays finite and positive (for tpCN below one) whatever the acceptance history, moves up after a step with acceptance above 23.4 percent and down below it, is carried to the next iteration, and is reported relative to its optimal value.",
  ["histories", "inputs"], "every accept/reject history of small populations up to the maximal number of steps, all kernels, all small dimensions and step settings",
  "Adaptive scales go wrong only after particular acceptance histories.",
  [M, S], [("scale adaptation", M), ("plateau counter", M)], ["return value of the kernels", "Sampler.results['steps','efficiency','accept']"])
p("C18", "The prior is exactly the product of its component distributions",
  "For every list of component distributions the prior's log-density of a point is the sum of the components' log-densities at the respective coordinates, its samples have one row per draw with column i drawn from component i independently, its bounds are the components' supports and its dimension their number. This holds for any order of components and any number of points, including a single one and points outside the support.",
  ["inputs", "configurations"], "all ordered selections of up to three distributions from a set of different support types, a lattice of points inside, on and outside the support",
  "Tests use two fixed priors at random points.",
  ["pocomc/prior.py"], [("sum over components", "pocomc/prior.py:logpdf"), ("transposed draws", "pocomc/prior.py:rvs")], ["Prior.logpdf", "Prior.rvs", "Prior.bounds", "Prior.dim"])
p("C19", "Invalid options are rejected, valid ones honoured, defaults derived consistently",
  "Every invalid choice of transform, metric, sampling or resampling scheme, flow name, missing particle numbers, or vectorised likelihood with blobs is rejected with a ValueError before any likelihood evaluation. Every valid combination of options constructs a sampler that runs and honours them: the requested number of active particles, prior draws (at least one batch), dimensionality, output location and label, and the derived particle numbers (active = half of effective, effective = twice active).",
  ["configurations"], "the full product of option values (valid and invalid) over small alphabets, including one-dimensional problems and a pool of size one",
  "Tests cover a handful of combinations; many pairs of options are never used together.",
  [S, F], [("constructor", S + ":__init__")], ["Sampler constructor", "Sampler.results"])
p("C20", "The fitted geometry is finite, positive definite and equivariant",
  "Fitting the geometry to any non-degenerate weighted sample gives the weighted mean and covariance, and a Student-t fit with finite mean, symmetric positive-definite scale matrix and positive finite degrees of freedom that reflect the tails of the sample. Results transform consistently under shifts, rescaling and permutation of the parameters; equal weights agree with no weights for the normal part, and zero-weight samples have no influence.",
  ["inputs"], "all small lattice samples in one to three dimensions, all weight patterns of a lattice including zeros and one dominant weight",
  "Tests do not cover the geometry at all.",
  ["pocomc/geometry.py", "pocomc/student.py"], [("weighted moments", "pocomc/geometry.py:fit"), ("EM fit", "pocomc/student.py:fit_mvstud")], ["Geometry attributes", "fit_mvstud"])
p("C21", "Blobs returned by the likelihood are stored and returned faithfully",
  "Whatever the type and shape of the extra values the likelihood returns (numbers, several values, arrays, strings, structured), each particle's stored blob is the one the likelihood returned at exactly that position, through replacement of zero-likelihood draws, resampling, acceptance, rejection, saving, resuming and posterior selection. Blob support works for every kernel and also when no proposal or only some proposals lie inside the support. Returning blobs changes no other result of the run.",
  ["inputs", "histories", "configurations"], "all blob kinds, kernels, accept/reject and support patterns",
  "Tests use float blobs with all proposals inside the support.",
  [S, M], [("blob assembly", S + ":_log_like"), ("blob mask", M)], ["Sampler.results['blobs']", "Sampler.posterior(return_blobs=True)"])
p("C22", "Runs are reproducible and unaffected by progress bars, saving or reading",
  "Two runs with the same seed and options give identical results, whatever random numbers were consumed before the sampler was constructed. Progress display, saving frequency, output location, number of torch threads and reading results in between do not change any result, and runs never write outside the given output directory (nothing at all when saving is off).",
  ["configurations", "histories"], "all configurations of the grid crossed with all observation options",
  "Tests never compare two runs.",
  [S], [("seeding", S + ":__init__")], ["Sampler.results", "Sampler.evidence", "file system"])
p("C23", "The normalizing flow is a bijection with consistent densities",
  "For every supported flow type and user-provided flow, to single precision wherever the map is well conditioned, mapping to latent space and back returns the point, the two log-determinants are opposite and equal the true Jacobian, the log-probability is the base density plus the log-determinant, and drawn samples come with the log-probability of exactly those samples. The numpy interface used by the samplers gives the volume factors of the latent-to-original map in both directions.",
  ["inputs", "configurations"], "all flow types, dimensions one to three, a set of parameter settings (initial, perturbed, trained), a lattice of points",
  "Tests check shapes and one round trip.",
  [F, T], [("transform", F), ("numpy wrapper", T + ":flow_numpy_wrapper")], ["Flow.forward", "Flow.inverse", "Flow.log_prob", "Flow.sample"])
p("C24", "Flow training honours its contract for every loss history",
  "Training runs at most the given number of epochs, stops once the monitored loss has not improved for one and a half times the patience and then restores the parameters of the best epoch, and returns one loss entry per epoch. Each sample keeps its own weight under every shuffling, training and validation sets partition the data with the given fraction used for validation, training noise scales with the mean nearest-neighbour distance, and weight regularisation is applied when requested; the input data are not modified.",
  ["inputs", "histories", "schedules"], "all loss histories over a small alphabet up to a depth, all permutations of small data sets, all validation fractions and option combinations",
  "Tests only check that training returns a history.",
  [F], [("early stopping", F + ":fit"), ("shuffling", F + ":fit"), ("regularisation", F + ":regularization_loss")], ["Flow.fit", "Flow parameters"])
p("C25", "posterior() returns aligned, normalised samples for every option combination",
  "For every combination of resampling, trimming, blobs and log-weight options the returned arrays have equal length and each row belongs to one particle of the history with its own log-likelihood, log-prior, blob and weight; weights are normalised and proportional to the importance weights, log-weights are the log importance weights, trimming keeps the requested fraction of the effective sample size and cuts as deep as the requested number of bins allows, and resampled output contains only particles of positive weight in proportion to their weights. Asking for blobs that do not exist is an error, and the call does not change the sampler.",
  ["inputs", "configurations", "histories"], "the full product of options on several histories, all resampling picks including the extreme ones",
  "Tests call it with one or two option sets and check shapes.",
  [S, T], [("joint indexing", S + ":posterior")], ["Sampler.posterior"])
p("C26", "An interrupted run keeps its completed iterations and can go on",
  "When a user function (likelihood, prior, flow or pool) raises an exception or the user interrupts it at any call, that exception reaches the caller, and the history holds exactly the completed iterations. Running again, or saving, loading into a new sampler and running there, then gives the results of the run that was never interrupted, given the same random stream. Nothing of the interrupted iteration remains: iteration labels, target sample size, ladder and stopping rule are those of the completed ones.",
  ["crash_points", "configurations", "histories"], "every call of every user function in warm-up, mutation, training and evidence stages, exceptions and keyboard interrupts, repeated ones, continuing in place and through a checkpoint",
  "Tests never raise from a user function; what is left behind depends on the exact call that fails.",
  [S, "pocomc/particles.py"], [("iteration loop", S + ":run"), ("history update", "pocomc/particles.py:update")], ["Sampler.results", "Sampler.run", "Sampler.save_state"])
p("C27", "Results do not depend on the units of the parameters",
  "If every parameter is measured in another unit (a positive factor and a shift of origin, with the prior and the likelihood expressing the same model), then a run with the same random stream does the same thing: the same number of iterations and likelihood calls, the same temperatures, log-likelihoods, acceptance rates, weights and evidences, and the same positions expressed in the new units, to rounding error. No step uses an absolute length in parameter space.",
  ["inputs", "configurations"], "every configuration of the grid with every unit vector of a list of powers of two between 2^-30 and 2^40 (mixed ones included) and shifts of the origin",
  "Tests use parameters of order one, for which absolute tolerances, jitters and clipping limits are invisible.",
  ["pocomc/scaler.py", S, M], [("scaling", "pocomc/scaler.py"), ("proposal covariance", M), ("geometry fit", "pocomc/geometry.py")], ["Sampler.results", "Sampler.evidence", "likelihood callback"])
p("C28", "Flow and proposals are adapted to the current weighted ensemble, and only then",
  "Each iteration works on one weighted ensemble: the whole history with the importance weights at the iteration's temperature, trimmed to 99 percent of its effective sample size. Without preconditioning the proposal geometry is fitted to it in every iteration; with preconditioning the flow is trained on exactly these points and weights (at the first iteration, at the training frequency and always at temperature one) and the geometry is fitted to their image under the trained flow. Between trainings the flow and its geometry do not change, also across a checkpoint, and the parameter transform is the same throughout.",
  ["configurations", "histories"], "every configuration of the grid, all training frequencies, complete runs, continued runs and runs resumed from every checkpoint",
  "A stale or differently weighted adaptation still gives valid Markov chains, so every test passes; efficiency and robustness are lost silently.",
  [S, "pocomc/geometry.py"], [("training and geometry fits", S + ":_train"), ("trimming", S + ":_reweight")], ["Sampler.u_geometry", "Sampler.theta_geometry", "Sampler.flow", "Flow.fit arguments"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["title"]
        assert e["statement"].count(". ") <= 2, e["id"]
        f.write(json.dumps(e) + "\n")
print(len(P), "properties")

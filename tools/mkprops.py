#!/usr/bin/env python3
# writes properties.jsonl (run by hand when the list changes)
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": w} for n, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Binning geometry: every value has exactly one bin, indices are a bijection",
  "For every axis accepted (equal or variable bin widths), edges, centres, widths, minimum and maximum agree with the binning given, and looking up any value returns the one bin whose half-open interval [low, high) holds it, the first bin below the range and the last bin at or above its top. For any set of axes, global bin number and per-axis indices convert into one another without loss, in row-major order of the axes as added, and every per-bin accessor by global bin number agrees with the axis it comes from. Axes, and sets of axes, compare equal exactly when they have the same bins in the same order (their names do not count). Malformed axes, duplicate axis names, unknown axes, out-of-range bins and wrong dimensions are refused with an exception.",
  ["inputs", "configurations"], "all axis shapes, numbers of axes, values on, between, below and above the edges, all global bins",
  "The tests look up a handful of values on one or two fixed axes; the claim is over all shapes of axes and all values including those exactly on edges.",
  ["src/histogram/BinAxis.cpp", "src/histogram/AxisCollection.cpp"],
  [("BinAxis::FindBin", "src/histogram/BinAxis.cpp"), ("FlattenIndices/UnflattenIndex", "src/histogram/AxisCollection.cpp")])

p("C02", "Histogram bookkeeping follows every history of fills and arithmetic",
  "After any sequence of fills (by values, by named values, weighted), direct bin reads and writes, scaling, normalising, emptying and histogram arithmetic, every bin of a histogram, its integral, means, variances and per-axis results are those a plain map from bin to content would give. Arithmetic between histograms acts bin by bin and is refused, leaving both operands unchanged, when their axes differ; operands on the right hand side and copies never change. Binned distributions present the same contents through their own interface.",
  ["histories", "inputs"], "all operation sequences up to a depth over 1- to 3-dimensional histograms",
  "Tests exercise each operation once on a fresh histogram; interleavings, repeated normalisation and arithmetic after fills are never explored.",
  ["src/histogram/Histogram.cpp", "src/dist/BinnedED.cpp", "src/dist/BinnedED.h"],
  [("Histogram::Fill/Add/Multiply/Divide/Normalise", "src/histogram/Histogram.cpp")], [("bin contents", "content per global bin")])

p("C03", "Projections, slices and reshaping preserve the contents they keep",
  "Marginalising a histogram or binned distribution onto any non-empty subset of its axes, in any order asked for, sums exactly the dropped axes so that the integral is conserved and successive marginalisations agree with a direct one. Slicing at given bins of some axes returns, for the remaining axes, exactly the contents at those bins with no rearrangement. Requests naming unknown axes or bins out of range are refused.",
  ["inputs", "configurations"], "all subsets and orders of axes of 1- to 4-dimensional histograms with distinguishable contents",
  "Tests project single fixed 2- and 3-dimensional histograms with mostly symmetric shapes; axis-order and more-than-one-free-axis cases are not reached.",
  ["src/histogram/Histogram.cpp", "src/histogram/HistTools.cpp", "src/dist/BinnedED.cpp"],
  [("Histogram::Marginalise, GetSlice", "src/histogram/Histogram.cpp"), ("BinnedED::Marginalise", "src/dist/BinnedED.cpp")])

p("C04", "Lattice interpolation matches bin contents and never leaves the histogram",
  "Interpolating a histogram (and a shape constraint built on one) at a bin centre gives that bin's content, and between centres gives the multilinear blend of the surrounding bins, in any number of dimensions and for variable bin widths. The interpolation region is bounded by the outermost bin centres, and a point outside it is refused instead of being answered from unrelated bins or from outside memory.",
  ["inputs", "configurations"], "all 1- to 3-dimensional lattices up to the bound and all points on a grid of centres, edges, between and outside",
  "Tests evaluate a few interior points of one lattice; the half-bin borders, higher dimensions and axis permutations are not sampled.",
  ["src/histogram/Histogram.cpp", "src/constraint/ShapeInterpConstraint.cpp"],
  [("Histogram::GetLatticePoints/GetLatticePointValues", "src/histogram/Histogram.cpp"), ("ShapeInterpConstraint::Evaluate", "src/constraint/ShapeInterpConstraint.cpp")])

p("C05", "Events and data sets keep every value with its observable's name",
  "Through any history of adding events, setting names, copying, assigning, concatenating and selecting, the value read from an event or data set by observable name or by index is the value stored for that observable, in the order the events were added. Observable sets map names to indices consistently with the events they select from, and concatenation leaves its operands unchanged. Unknown observables, events out of range and data sets with different observables are refused with an exception, never answered from other data.",
  ["histories"], "all sequences of data-set operations up to a depth, over several data sets with copies outliving their originals",
  "Tests build one data set and read it back; aliasing between copies, self-concatenation and lifetime of the shared names depend on the history.",
  ["src/data/OXSXDataSet.cpp", "src/data/Event.cpp", "src/data/ObsSet.cpp"],
  [("OXSXDataSet::AddEntry, operator+", "src/data/OXSXDataSet.cpp"), ("Event::GetDatum/ToObsSet", "src/data/Event.cpp")], [("names", "observable names shared by events")])

p("C06", "Cuts decide by their boundaries alone and the cut log counts each event once",
  "Box, line and boolean cuts accept exactly the events on the stated side of their stated boundaries on the observable they name, and a collection accepts an event exactly when all its members do, whatever was added, copied or assigned before. A passing event is recorded once as passed; a failing event is recorded once, against the first cut in order that rejects it. The log's percentages, remainders and totals always add up to the number of events recorded.",
  ["histories", "inputs"], "all collections of up to a few cuts, all event values around the boundaries, all sequences of recorded events, copies and assignments",
  "Tests use one collection and a few events; boundary values, order dependence, copies and log arithmetic over histories are unsettled.",
  ["src/cut/CutCollection.cpp", "src/cut/CutLog.cpp", "src/cut/BoxCut.cpp", "src/cut/LineCut.cpp", "src/cut/BoolCut.cpp"],
  [("CutCollection::PassesCuts", "src/cut/CutCollection.cpp"), ("CutLog::LogCut/CalculateMeta", "src/cut/CutLog.cpp")])

p("C07", "Filling a distribution: systematics, then cuts, then exactly one fill per event",
  "Filling a binned distribution from a data set first applies the event systematics, then the cuts to the shifted event, and adds exactly one unit to the bin of the shifted observables for each event that passes and nothing for one that fails, for at most the requested number of events in order. The data set itself is unchanged, and the returned or supplied cut record accounts for every event looked at. Counting results report the surviving numbers per cut and their expectations consistently with the same accounting.",
  ["inputs", "configurations", "histories"], "all data sets up to a few events, all combinations of cuts, event systematics, event limits and observable selections",
  "The filler has no stable test at all; the property ranges over combinations of cuts, systematics and limits.",
  ["src/dist/DistFiller.cpp", "src/fitutil/EventSystematicManager.cpp", "src/count/CountingResult.cpp", "src/count/CountingExperiment.cpp"],
  [("DistFiller::FillDist", "src/dist/DistFiller.cpp")])

p("C08", "Event systematics change only their own observables, in the order added",
  "Every event systematic changes exactly the observables it is configured for by its documented formula with its current parameter values (a scale multiplies, a shift adds, a reconvolution moves the value towards or away from the true value), leaves every other value of the event alone, and leaves the input event untouched. A manager applies its systematics one after the other in the order they were added, with their parameter values at the time of the call, and with none added returns the event as it is. Misconfigured systematics and invalid parameter values are refused.",
  ["histories", "inputs"], "all sequences of up to a few systematics with parameter changes in between, over events of several observables",
  "Tests apply single systematics with one value; order dependence and later parameter changes through the shared interface need histories.",
  ["src/eventSystematic/EventScale.cpp", "src/eventSystematic/EventShift.cpp", "src/eventSystematic/EventReconvolution.cpp", "src/fitutil/EventSystematicManager.cpp", "src/eventSystematic/EventSystematic.cpp"],
  [("EventSystematic::operator()", "src/eventSystematic"), ("EventSystematicManager::ApplySystematics", "src/fitutil/EventSystematicManager.cpp")])

p("C09", "Binned systematics move probability as their physics says and create none",
  "For any binning, parameter value and contents, a scale, shift, functional scale or convolution redistributes each bin's content over bins of the observables it transforms, leaves all other axes unmixed, and sends content to a bin in proportion to the overlap (or kernel integral) its transformation implies, so that no content is created or becomes negative and none is lost unless it is moved out of the range. At the neutral parameter value the distribution is unchanged; a shape systematic multiplies each bin by its function at that bin's centre. The outcome does not depend on the order in which axes are arranged or observables are listed, and misconfiguration or unphysical parameter values are refused.",
  ["inputs", "configurations"], "all parameter values on a grid, all 1- to 3-dimensional binnings up to the bound, all choices and orders of transformed observables",
  "Tests apply one value to one binning, mostly one-dimensional; multi-axis layouts, axis order and extreme shifts are not reached.",
  ["src/systematic/Scale.cpp", "src/systematic/Shift.cpp", "src/systematic/ScaleFunction.cpp", "src/systematic/Shape.cpp", "src/systematic/Convolution.cpp", "src/systematic/Renorm.cpp", "src/systematic/Systematic.cpp"],
  [("Construct", "src/systematic/*.cpp")], [("response", "matrix mapping bins to bins")])

p("C10", "A reconfigured systematic behaves as one freshly built that way",
  "After any sequence of changing a systematic's parameters, axes, or the observables it transforms or applies to, reconstructing it gives the same response as a new systematic set up with the final configuration only. Constructing twice without a change gives the same response, and applying a systematic never changes its input distribution or the systematic itself. Constructing a systematic that lacks the axes, observables or function it needs is refused with an exception, and so is applying one that has no response yet or applying it to a distribution of another size.",
  ["histories"], "all sequences of configuration changes, parameter changes and constructions up to a depth, for each systematic",
  "Tests configure each systematic once; caching across reconfiguration is only visible in histories.",
  ["src/systematic/Scale.cpp", "src/systematic/Shift.cpp", "src/systematic/ScaleFunction.cpp", "src/systematic/Shape.cpp", "src/systematic/Convolution.cpp", "src/systematic/Systematic.cpp"],
  [("bin mapping caches", "src/systematic/*.cpp")], [("cached mapping", "whether system and sub-system bins have been matched")])

p("C11", "Systematic groups: each distribution gets exactly its groups, in order",
  "Applying a systematic manager to distributions multiplies each by the unnamed-group systematics and then by those of the groups it is assigned to, in the order given, with current parameter values, once each. The normalisation reported for each distribution is its integral after the systematics, one entry per distribution in order. Assigning unknown groups, registering a systematic twice under different groups for one distribution and querying unknown groups is refused, and any order of adding systematics and distributions that leads to the same assignment gives the same result.",
  ["histories", "configurations"], "all assignments of up to three systematics to groups and of groups to up to three distributions, in all orders, with parameter updates in between",
  "Tests fix one assignment and call order.",
  ["src/fitutil/SystematicManager.cpp"], [("SystematicManager::DistortEDs, Construct", "src/fitutil/SystematicManager.cpp")])

p("C12", "Buffer bins: shrinking keeps the fit region and accounts for the rest",
  "With any buffer sizes configured per axis, shrinking a distribution keeps the contents of every retained bin with its edges and names, and the content of the buffer bins is either all dropped or all added to the nearest retained bin, according to the overflow setting, so that in the latter case the integral is conserved. Axes without buffers are untouched, shrinking with no buffers is the identity, and the answer depends only on the current configuration and not on distributions shrunk before. Buffers that would leave no bin, and queries about unconfigured axes, are refused.",
  ["configurations", "histories", "inputs"], "all buffer pairs on up to three axes of up to five bins, with and without overflow, and all sequences of reconfiguration and shrinking up to a depth",
  "Tests shrink one axis and one pair of distributions once.",
  ["src/fitutil/BinnedEDShrinker.cpp"], [("BinnedEDShrinker::ShrinkDist/SetBuffer", "src/fitutil/BinnedEDShrinker.cpp")])

p("C13", "Total expected distribution: every pdf enters with the right normalisation",
  "At any parameter point, the expected distribution is the sum over pdfs of normalisation times pdf, where a directly fitted normalisation multiplies the pdf as its systematics leave it (normalised again once buffer bins are removed), an indirectly fitted one multiplies the pdf as systematics and buffer removal leave it and is reported as the number that survives them, and a pdf without fitted normalisation enters as it is and is reported with its own integral. The fitted parameters, the normalisations reported and the working pdfs correspond one to one in the order the pdfs were added, for every mixture of fitting modes. Re-evaluating with the same parameters, systematics and buffers any number of times, in any order with other parameter points, gives the same answer.",
  ["histories", "configurations"], "all mixtures of fitting modes for up to three pdfs, with systematics and shrinking, and all sequences of parameter updates and evaluations up to a depth",
  "The relevant unit test is not part of the stable suite and covers one mixture; cross-evaluation state is not sampled.",
  ["src/fitutil/BinnedEDManager.cpp", "src/fitutil/BinnedEDManager.h"], [("BinnedEDManager::ApplySystematics, ApplyShrink, ReassertNorms, GetNormalisations", "src/fitutil/BinnedEDManager.cpp")],
  [("normalisations, fittable normalisations, working pdfs", "state carried between evaluations")])

p("C14", "The binned likelihood equals its formula and forgets earlier evaluations",
  "At every parameter point the binned negative log likelihood equals the extended Poisson expression of the data and expected distribution (in the shrunk fit region when buffers are set), plus the terms of the constraints, plus the finite Monte Carlo statistics terms when these are enabled, computed with that point's systematics and normalisations. Evaluating is repeatable: the value at a point does not depend on what points were evaluated before, on whether the data were given as events or as a distribution, or on configuration calls being repeated or made in another order. Bins without data contribute their expectation only and never make the value undefined, a bin with zero expectation is refused, and so is evaluating without the required inputs.",
  ["histories", "inputs", "configurations"], "all sequences of parameter settings, evaluations and re-configurations up to a depth, for all combinations of systematics, buffers, constraints and statistics treatment",
  "The likelihood's unit test is not in the stable suite and evaluates single points; independence of history and zero bins are not sampled.",
  ["src/teststat/BinnedNLLH.cpp", "src/fitutil/BinnedEDManager.cpp", "src/teststat/TestStatistic.cpp"], [("BinnedNLLH::Evaluate", "src/teststat/BinnedNLLH.cpp")])

p("C15", "Combined test statistics and managers fan parameters out to every owner",
  "When components sharing parameter names are combined (a sum of test statistics, a component manager, or a parameter manager), setting the parameters by name gives every component that has a parameter of that name this value, reading returns the value every owner has, and the combined names are the union of the components' names. A sum evaluates to the sum of its parts at the current parameters, for any nesting and any order of construction, and building sums leaves their parts as they were. A sum also counts the constraints set on itself, once. Sets of parameters that lack one a component needs are refused (an empty set asks for nothing), as are registrations that would make a name stand for two values within one manager.",
  ["histories", "configurations"], "all groupings and nestings of up to four components with overlapping names, all sequences of sets and reads up to a depth",
  "Tests combine two statistics once.",
  ["src/teststat/StatisticSum.cpp", "src/core/ComponentManager.cpp", "src/core/ParameterManager.cpp"], [("StatisticSum::SetParameters/Evaluate", "src/teststat/StatisticSum.cpp"), ("ComponentManager", "src/core/ComponentManager.cpp")])

p("C16", "Every fittable component tells one consistent story about its parameters",
  "For every fittable component, after any sequence of setting parameters singly or together and renaming them, the number, the set of names and the name-to-value map agree with one another, each value read is the last one set under that parameter's current name, and what the component computes uses these values. Renaming keeps the value and affects only that parameter; renaming or setting a parameter that does not exist, or renaming onto a name already taken, is refused and changes nothing (a Gaussian instead ties parameters given the same name to one value). A bulk setting that lacks a parameter is refused, except by the functions documented to take partial updates.",
  ["histories"], "all sequences of set, bulk set and rename up to a depth on every fittable component",
  "Tests touch a few accessors once per class; aliasing of names and values arises only in sequences.",
  ["src/systematic/Scale.cpp", "src/systematic/Shift.cpp", "src/systematic/ScaleFunction.cpp", "src/systematic/Shape.cpp", "src/systematic/Convolution.cpp", "src/systematic/Renorm.cpp", "src/function/Gaussian.cpp", "src/function/GaussianFitter.cpp", "src/function/SquareRootScale.cpp", "src/function/VaryingCDF.cpp", "src/function/JumpPDF.cpp", "src/dist/SpectralFitDist.cpp", "src/dist/AnalyticED.cpp", "src/eventSystematic/EventScale.cpp", "src/eventSystematic/EventShift.cpp"],
  [("FitComponent interface", "src/core/FitComponent.h")])

p("C17", "Constraints: each is counted once, with its formula and latest setting",
  "The value of a constraint manager at any parameter point is the sum over the constraints in force of their formulas: quadratic with symmetric or asymmetric widths, correlated pairs, ratios of two parameters, and shapes. Setting a constraint again on the same parameter, pair or ratio replaces the old one, and constraints on different parameters are independent; correlated constraints refuse parameters already constrained and vice versa where documented. Parameters missing from the point, and unphysical widths or correlations, are refused with an exception.",
  ["histories", "inputs"], "all sequences of up to a few constraint settings over three parameters, evaluated at a grid of points",
  "Tests set each kind once and evaluate one point; replacement and interaction between kinds need sequences.",
  ["src/constraint/ConstraintManager.cpp", "src/constraint/QuadraticConstraint.h", "src/constraint/BivariateQuadraticConstraint.h", "src/constraint/RatioConstraint.h"], [("ConstraintManager::Evaluate/SetConstraint", "src/constraint/ConstraintManager.cpp")])

p("C18", "Matrices obey linear algebra and never touch their operands",
  "Dense and sparse matrices agree entry by entry with a plain array through any sequence of setting components, clearing, identity, multiplying and applying to bin contents, and multiplication does not change its operands. Multiplying matrices of incompatible shapes, applying one to contents of another size, and addressing a component outside the matrix are refused. Applying the identity returns the contents unchanged and applying a product equals applying the factors in turn.",
  ["histories", "inputs"], "all sequences of operations up to a depth on up to 3 by 3 matrices with entries from a small set",
  "Tests cover single operations on fixed matrices.",
  ["src/core/SparseMatrix.cpp", "src/core/DenseMatrix.cpp"], [("operator()/operator*", "src/core/SparseMatrix.cpp")])

p("C19", "Configuration files yield exactly what they say or an error",
  "Loading a value of any supported kind (number, integer, boolean, text, list, set) from a configuration file returns what the file states under that section and name, with comments and surrounding blanks ignored, and keys of one section are never answered from another. A missing file, section or name and a value that cannot be read as the requested kind are refused with an exception. Opening another file replaces everything from the previous one, and after a failed opening or closing, loading is refused.",
  ["inputs", "histories"], "all files assembled from a grammar of sections, keys, values, blanks and comments up to a length; all sequences of open, load, close up to a depth",
  "No stable test covers the loader; its claims range over file contents and call orders.",
  ["src/config/ConfigLoader.cpp", "src/config/ConfigLoader.hpp", "src/config/INIParser"], [("ConfigLoader::Load/Open/Close", "src/config/ConfigLoader.cpp")])

p("C20", "A grid search visits the whole grid and returns its extremum",
  "For any number of parameters and any minima, maxima and steps, a grid search evaluates the statistic exactly at the points of the product grid, both ends included where a step lands on them, and reports the point with the least value (or the greatest when maximising) together with that value, whatever the sign of the values. Points that are not numbers are never preferred. Inconsistent configurations (missing or unknown parameters, minimum above maximum, non-positive steps) are refused rather than looping or reading past their inputs.",
  ["inputs", "configurations"], "all grids of one to four parameters with up to four points each and all placements of the extremum",
  "Tests run a single small fit; the claim is about every grid shape.",
  ["src/optimise/GridSearch.cpp"], [("GridSearch::Optimise/Increment", "src/optimise/GridSearch.cpp")])

p("C21", "Copies and clones are independent values that outlive one another",
  "Copying, assigning (also to itself) or cloning any distribution, function, cut, cut collection, fit result, dataset or test-statistic part yields an object equal in all observable ways to its source (the name of a copied Gaussian says that it is a copy), sharing no mutable state with it apart from what the user lent it by pointer. After any sequence of copying, modifying and destroying, each object's observable state is the one its own history gave it, and nothing is freed twice or used after being freed.",
  ["histories"], "all sequences of create, copy-construct, assign, self-assign, clone, modify and destroy up to a depth over a small pool of objects of each class",
  "Tests copy at most once and never destroy the source first.",
  ["src/dist/AnalyticED.cpp", "src/dist/CompositeED.cpp", "src/dist/SpectralFitDist.cpp", "src/fitutil/EDManager.cpp", "src/optimise/FitResult.cpp", "src/cut/CutCollection.cpp", "src/function/VaryingCDF.cpp", "src/function/JumpPDF.cpp", "src/function/Gaussian.cpp"],
  [("copy constructors, assignment operators, Clone", "src/*")])

p("C22", "Probabilities are evaluated on the right observables and stay normalised",
  "The probability a binned, analytic or composite distribution assigns to an event is that of the value(s) of its own observables in that event, whatever other observables the event carries and in whatever order they are listed, and for a composite it is the product over its parts. After normalising, probabilities sum (or integrate) to one, and the norm reported is the one in force. A manager of distributions returns the normalisation-weighted sum over its members, in the order they were added.",
  ["inputs", "configurations", "histories"], "all selections and orders of observables, nestings of composites up to a depth, all bins and probe values",
  "Tests for composites and managers are not in the stable suite; observable-order claims range over all layouts.",
  ["src/dist/BinnedED.cpp", "src/dist/AnalyticED.cpp", "src/dist/CompositeED.cpp", "src/fitutil/EDManager.cpp", "src/dist/EventDistribution.h"], [("Probability, Normalise, Integral", "src/dist/*.cpp")])

p("C23", "Limits and integrals over distributions are computed from the right bins",
  "The upper bound reported for a posterior histogram is the point at which the cumulative content reaches the requested fraction of the total, for any binning and contents, is monotone in the confidence level, and lies within the histogram's range. The analytic one-bin counting limit satisfies the same defining equation. Requests with an invalid confidence level or a histogram of the wrong dimension are refused.",
  ["inputs"], "all small histograms with contents from a small set and a grid of confidence levels",
  "The unit test is not in the stable suite and checks one Gaussian.",
  ["src/interval/BayesIntervalCalc.cpp", "src/interval/IntervalCalc.cpp"], [("BayesIntervalCalc::UpperBound", "src/interval/BayesIntervalCalc.cpp")])

p("C24", "What is written to file is what is read back",
  "Saving a data set or histogram and loading it again reproduces every event, observable name, axis, edge and bin content, for any number of events and dimensions including none, and a lazily loaded data set answers exactly as the one held in memory, whichever of several is in use. Writing never alters the object. Conversion to and from ROOT histograms keeps edges and contents, and ROOT files keep values to single precision. Missing or foreign files and objects that cannot be represented are refused with an exception rather than stored or read wrongly.",
  ["inputs", "histories"], "all data sets and histograms up to small sizes and name lengths, all interleavings of several lazy data sets up to a depth",
  "The tests round-trip one file of each kind and are not in the stable suite.",
  ["src/data/IO.cpp", "src/data/LazyOXSXDataSet.cpp"], [("IO::SaveDataSet/LoadDataSet/SaveHistogram/LoadHistogram", "src/data/IO.cpp")])

p("C25", "The Markov chain accepts by the Metropolis rule and records every step",
  "For every sequence of random numbers, the sampler accepts a proposed step exactly when the Metropolis rule at the current and proposed likelihood says so, never leaves the allowed region, and stays where it is otherwise. The sampler's own correction enters the acceptance, every run is a new chain, and the posterior histograms, the stored chain (steps beyond the burn-in whose number the thinning factor divides), the autocorrelations and the acceptance rate are those of that walk; the best fit is the visited point of greatest likelihood. Missing settings (ranges, widths, starting values) are refused.",
  ["inputs", "histories"], "all chains up to a length over all resolutions of the injected random numbers and a set of likelihood surfaces",
  "Tests cannot pin the random numbers; the chain has no stable test.",
  ["src/optimise/MCMC.cpp", "src/optimise/MCMCSamples.cpp", "src/optimise/MetropolisSampler.cpp"], [("MCMC::Optimise/StepAccepted", "src/optimise/MCMC.cpp"), ("MCMCSamples::Fill", "src/optimise/MCMCSamples.cpp")])

p("C26", "Generated data sets draw only what they may, the number of times asked",
  "For every outcome of the random numbers, a generated data set holds, per source, the requested (or Poisson drawn) number of events, each one an event of that source; without replacement or in sequential mode no source event is ever drawn twice over the generator's life, and the remainder plus the draws is the source. With bootstrapping every source event can be drawn. Every event that may be drawn is drawn with the same chance, sequential draws come in the order of the source, the output lists the sources in order and cuts only remove drawn events from it. Binned sources give the requested number of entries, each in a bin its source fills, in proportion to its contents. Requests exceeding what is left, sources that do not go together, missing flags and rates without meaning are refused, never answered by reading outside the source. The basic random numbers lie in their ranges, evenly, and accept-reject sampling follows the function.",
  ["inputs", "histories"], "all resolutions of the injected random numbers for small sources and all sequences of generation calls up to a depth",
  "Tests draw once from a seeded generator and are not in the stable suite.",
  ["src/data/DataSetGenerator.cpp", "src/dist/BinnedEDGenerator.cpp", "src/rand/Rand.cpp"], [("DataSetGenerator::FillWithEvents, AllRemainingEvents", "src/data/DataSetGenerator.cpp")])

p("C27", "Hamiltonian trajectories reflect at walls and are reversible",
  "Leapfrog integration, with or without boundaries, is reversible: negating the momentum at the end and integrating back returns to the start (unless it starts or ends exactly on a wall), and a bounded trajectory never leaves its box, reflecting the momentum component of each wall it meets, including starts on a wall and simultaneous hits. Numerical gradients of polynomials match their derivatives within the step's order, and soft wall potentials switch on at the wall and are finite everywhere. The sampler proposes by such trajectories and corrects by the change of kinetic energy. Missing masses or walls, and walls with no room between them, are refused.",
  ["inputs"], "all starts, momenta and steps on a grid in one and two dimensions",
  "There is no test of these classes.",
  ["src/optimise/LeapFrog.cpp", "src/optimise/HamiltonianSampler.hpp", "src/optimise/Gradient.hpp"], [("LeapFrog::Hamiltonian", "src/optimise/LeapFrog.hpp")])

p("C28", "Fitted and truth-space functions: densities and cumulative values agree",
  "For every parameter setting, a Gaussian's cumulative value, integral over a box and density agree with one another and with the closed form in each dimension, within its cut-off; conditional densities take the mean, width and position from the observables and functions they are told to, whatever the order of the dimensions. A step function is one unless a constrained coordinate lies beyond its step, and zero then. Functions report their dimension correctly and refuse values, means and widths of the wrong size, widths that are not positive at creation, and negative widths later. Copies keep the parameter values of their source.",
  ["inputs", "configurations", "histories"], "all means, widths and probe points on a grid in up to three dimensions, and all orders of dimensions",
  "The function tests need the ROOT part of the library and are not in the stable suite.",
  ["src/function/Gaussian.cpp", "src/function/VaryingCDF.cpp", "src/function/JumpPDF.cpp", "src/function/SquareRootScale.cpp"], [("Gaussian::Cdf/Integral/operator()", "src/function/Gaussian.cpp"), ("VaryingCDF::ConditionalPDF/Integral", "src/function/VaryingCDF.cpp")])

p("C29", "Minuit is handed the problem as configured and answers by name",
  "The function handed to Minuit is the statistic, negated when maximising, with every value under its own parameter's name whatever order the parameters were given in. Starting values, errors, limits on any subset of the parameters and fixing and releasing reach the parameters they name, and the method, strategy, tolerance, number of calls and contour edge reach Minuit as set. The best fit by name, the extreme value with its own sign, the validity and the covariance are those Minuit reports. Settings that do not go together are refused. Runs after one another, with other statistics or settings, and copies of an optimiser are independent.",
  ["configurations", "histories"], "all settings over several sets of parameter names and all sequences of reusing and copying an optimiser up to a depth",
  "Minuit is not part of the tested build; nothing tests the wrapper.",
  ["src/optimise/Minuit.cpp", "src/optimise/MinuitFCN.cpp"], [("Minuit::Initialise, Minuit::Optimise", "src/optimise/Minuit.cpp"), ("MinuitFCN::operator()", "src/optimise/MinuitFCN.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))

"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "popsynth/population_synth.py"; POP = "popsynth/population.py"; AUX = "popsynth/auxiliary_sampler.py"
DIST = "popsynth/distribution.py"; GEN = "popsynth/selection_probability/generic_selectors.py"
SEL = "popsynth/selection_probability/selection_probability.py"
SPS = "popsynth/selection_probability/spatial_selection.py"; FLS = "popsynth/selection_probability/flux_selectors.py"

prop("P01", "An object is detected exactly when every active selection accepts it",
 "In a drawn survey an object is marked detected if and only if the flux selection, the spatial selection (if any) and the selection of every auxiliary quantity, including quantities nested as secondaries and those feeding a derived luminosity, all accept that same object. No attached selection is skipped, applied to the wrong object, or applied to another quantity's values.",
 ["inputs", "configurations"], "all simulated values, all thresholds, every subset of the selection kinds attached at once",
 "Tests draw a few fixed seeds and never compare the detection vector with the conjunction of the individual selections.",
 [S, AUX, SEL], [("survey assembly", "draw_survey"), ("conjunction", "SelectionProbability.__add__"), ("secondary collection", "AuxiliarySampler.get_secondary_properties")],
 observe=["Population.selection", "selector.selection of every attached selector"])

prop("P02", "Hard selectors accept exactly the inclusive threshold region",
 "A lower-bound, upper-bound, box or hard-flux selector accepts object i exactly when the i-th value of the quantity it was configured for (observed value, distance, luminosity or flux) is on the accepted side of its bounds, bounds included. A NaN value is never accepted and infinities compare as IEEE numbers do; a unity selector accepts everything.",
 ["inputs", "configurations"], "every IEEE-754 double for every value and bound, every configured quantity",
 "Tests use a handful of finite values far from the bounds.",
 [GEN, FLS], [("thresholding", "BoxSelection.draw / LowerBound.draw / UpperBound.draw"), ("flux specialisation", "HardFluxSelection")])

prop("P03", "Soft and Bernoulli selections use the documented detection probability",
 "A soft selection detects each object independently with probability 1/(1+exp(-strength*(log10 v - log10 boundary))), or with the un-logged difference when logs are switched off, v being that object's own value of the configured quantity. A Bernoulli selection detects each object independently with exactly the configured probability, with or without progress bars.",
 ["inputs", "configurations"], "all positive values, boundaries and strengths; every outcome of the underlying uniform draw",
 "Tests only run the selectors; the probability law is never compared, and sampling cannot tell nearby laws apart.",
 [GEN, FLS], [("soft selection", "SoftSelection.draw"), ("Bernoulli", "BernoulliSelection.draw"), ("flux specialisation", "SoftFluxSelection")])

prop("P04", "Spatial selections keep exactly the documented sky and distance regions",
 "The galactic-plane selection accepts an object exactly when the absolute galactic latitude of its own sky position is at least the limit. The distance selection accepts exactly the objects whose distance lies between the minimum and the maximum, both included.",
 ["inputs"], "all sky positions, distances and limits",
 "One seed and one limit are tried by the tests; the boundary and both hemispheres are not examined.",
 [SPS, DIST], [("galactic plane", "GalacticPlaneSelection.draw"), ("distance window", "DistanceSelection.draw"), ("sky coordinates", "SpatialDistribution.ra/dec")])

prop("P05", "Selector bookkeeping is a partition and adding selections is conjunction",
 "After a selector has selected, the accepted and rejected counts and index lists form an exact partition of the objects consistent with the selection vector. Adding two selections gives the element-wise conjunction without changing either operand, selecting again without a reset keeps the earlier outcome, and after a reset the next selection is made afresh on the current values.",
 ["inputs", "histories"], "all selection vectors and all short select/reset histories",
 "Tests check one selector at one size.",
 [SEL], [("counts and indices", "SelectionProbability.n_selected/selection_index"), ("sum", "__add__"), ("life cycle", "select/reset")])

prop("P06", "Known and unknown distances partition the detected objects",
 "For every survey the known-distance and unknown-distance indices partition the positions of the detected objects, and each known distance equals the distance of the detected object at its index. This holds for every detected count (including none) and every outcome of the distance selection (including that no distance is known).",
 ["inputs", "configurations"], "all distances, all detection vectors, all outcomes of Bernoulli, unity, bound, box and soft distance selections",
 "Tests never make the distance selection reject everything and never compare indices with values.",
 [S, POP], [("distance selection", "draw_survey"), ("size check", "Population.__init__")])

prop("P07", "Population accounts and per-object arrays stay aligned",
 "In a drawn population the counts of all, detected and undetected objects agree with the selection vector, every per-object quantity (luminosity, distance, flux, sky angles, probability, auxiliary values) has one entry per object in the same object order, and the detected/undetected views of each quantity are exactly its entries at the detected/undetected objects, observed and latent alike. Auxiliary attributes of a population cannot be overwritten.",
 ["inputs"], "all simulated values and all detection vectors",
 "Tests compare lengths for one seed only.",
 [POP, "popsynth/simulated_variable.py"], [("construction", "Population.__init__"), ("views", "SimulatedVariable.selected/non_selected"), ("protection", "Population.__setattr__")])

prop("P08", "A sub-population is the restriction of its parent",
 "Extracting the detected (or undetected) sub-population yields a population whose per-object quantities, probabilities and auxiliary values are the parent's rows at exactly those objects in order, all marked detected. Known distances of the result are exactly those parent known distances belonging to retained objects, at the matching indices, and the parent is left unchanged.",
 ["inputs"], "all values, all detection vectors and all known-distance outcomes",
 "Tests call the method without comparing rows, and use surveys where every distance is known.",
 [POP], [("restriction", "Population.to_sub_population")])

prop("P09", "Exported Stan data describe exactly the detected objects",
 "The Stan export has N equal to the number of detected objects, every detected-object vector (distance, flux, log10 flux, auxiliary observed values) has length N and holds the detected objects' own observed values in order, and the known/unknown index vectors are 1-based, partition 1..N and pair with the known distances. Scalar entries equal the survey's settings and each added model space is exported as the requested linear or logarithmic grid.",
 ["inputs"], "all values, all detection vectors, all known-distance outcomes, all grid limits",
 "Tests only check that the export runs.",
 [POP, S], [("export", "Population.to_stan_data"), ("grids", "PopulationSynth.add_model_space")])

prop("P10", "Writing a population to HDF5 and reading it back is lossless",
 "A population written to a file, or added as a group of an existing file, and then read back has the same numeric arrays, selection, known-distance records, parameters, truths, probability, auxiliary values, model spaces, name, forms, directed graph and synthesiser description. Adding a group leaves the other contents of the file unchanged.",
 ["inputs", "configurations", "histories"], "all array values and detection vectors, surveys with and without luminosity distribution, auxiliary quantities, model spaces and known distances; several groups in one file",
 "Tests reload one population and compare four arrays.",
 [POP, "popsynth/utils/hdf5_utils.py"], [("write", "Population._writeto/addto"), ("read", "Population._loadfrom"), ("dictionaries", "recursively_*_dict_contents")])

prop("P11", "A synthesiser survives the dictionary and YAML round trip",
 "Converting a synthesiser to its dictionary (or YAML file) and rebuilding from it gives a synthesiser with the same seed, distributions, rate flag, selections, auxiliary samplers, observed flags, secondary links and every set parameter value, for parameters that are plain Python numbers and selections that judge the quantity of the place they are attached to. The rebuilt synthesiser converts to the same dictionary again.",
 ["inputs", "configurations"], "all parameter values; every registered distribution, selection and auxiliary sampler kind; nested secondaries and derived luminosities",
 "Tests round-trip one or two configurations with fixed numbers.",
 [S, AUX], [("serialise", "to_dict/write_to/get_secondary_objects"), ("rebuild", "from_dict/from_file")])

prop("P12", "Rebuilding from a description does not consume the description",
 "Building a synthesiser from a dictionary leaves that dictionary unchanged, so the same description can be used any number of times with the same result. In particular the description carried by a population stays intact after it was used.",
 ["inputs", "histories", "configurations"], "all parameter values, all presence patterns of optional sections, repeated rebuilds",
 "Tests rebuild once from a freshly loaded file.",
 [S], [("rebuild", "PopulationSynth.from_dict")])

prop("P13", "Parameters respect their bounds, defaults and instance isolation",
 "Assigning a model parameter succeeds exactly when the value is within the declared inclusive bounds and the parameter is not fixed; a refused assignment raises and leaves the previous value in place. An accepted value is read back unchanged, unset parameters give their declared default or raise when there is none, and parameters of different objects or different names never influence each other.",
 ["inputs", "histories"], "every IEEE-754 double including NaN and infinities, all short sequences of assignments over two objects; the declared bounds of every built-in parameter",
 "Tests set in-range values only.",
 ["popsynth/utils/meta.py"], [("descriptor", "Parameter.__get__/__set__"), ("declaration", "ParameterMeta")])

prop("P14", "Simulated variables keep observed values, latent values and selection together",
 "Indexing or slicing a simulated variable and taking its selected or non-selected part applies the same index to observed values, latent values and selection. Element-wise arithmetic acts on the observed values and on the latent values alike and keeps the selection, and no operation that does not write in place changes its operands.",
 ["inputs", "programs"], "all values and selection vectors; integer, boolean, slice and fancy indices; unary and binary element-wise operations with scalars, arrays and other simulated variables",
 "Tests check one addition on fixed numbers.",
 ["popsynth/simulated_variable.py"], [("indexing", "__getitem__"), ("arithmetic", "__array_ufunc__"), ("views", "selected/non_selected")])

prop("P15", "The number of objects is Poisson with mean equal to the rate integral",
 "Unless a sample size is given, the number of drawn objects is Poisson distributed with mean equal to the integral from 0 to the maximum distance of density times differential volume divided by the time adjustment, using the distribution's current parameters. With a given sample size exactly that many objects are drawn. When normalising, the mean is that integral divided by the same integral taken with the amplitude parameter set to one (so it equals the amplitude parameter, or one for a distribution without one), and the stored parameters are unchanged after the draw.",
 ["inputs", "configurations"], "all parameter values and maximum distances, every built-in spatial distribution, rate and non-rate",
 "Tests draw a few populations and only look at whether it works.",
 [S, DIST], [("integration", "draw_survey"), ("normalisation", "normalize branch"), ("sampling", "np.random.poisson")])

prop("P16", "Distances are drawn by exact rejection sampling of the rate density",
 "Each drawn distance is a uniform proposal on [0, maximum distance] accepted exactly when a uniform height on [0, envelope] falls below the rate density at that proposal, the envelope being the maximum of that same density over a grid spanning the range. Exactly the requested number of distances is returned in acceptance order, and the law is the same whether or not progress bars are shown or normalisation is on.",
 ["inputs", "configurations"], "all random draws (with bounded number of rejections), all parameter values, progress on/off, normalise on/off",
 "A statistical test at one setting cannot distinguish a wrong envelope or a swapped comparison at the boundary.",
 [DIST, "popsynth/utils/rejection_sample.py"], [("sampler", "draw_distance / rejection_sample")])

prop("P17", "Latent flux follows the distance law of the spatial distribution",
 "The latent flux of an object is its luminosity divided by 4 pi (1+r)^2 for spherical distributions, divided by 4 pi times the squared luminosity distance for cosmological ones, and the luminosity itself for the flat one, using that object's own luminosity and distance. The transformation leaves the luminosities and distances unchanged.",
 ["inputs"], "all luminosities, distances and cosmological parameters",
 "Tests only look at shapes or a single value.",
 ["popsynth/distributions/spherical_distribution.py", "popsynth/distributions/cosmological_distribution.py", "popsynth/distributions/flatland_distribution.py", S], [("flux law", "transform"), ("use", "draw_survey")])

prop("P18", "Observed fluxes are positive log-normal scatter around the latent flux",
 "When a flux uncertainty is given and a flux selection is set, each observed flux is the object's latent flux times 10^e (or exp(e) when natural logs are requested) with its own e drawn from a zero-mean normal of that width, so it is always positive. Otherwise observed fluxes equal latent fluxes, and the flux selection always judges the observed flux.",
 ["inputs", "configurations"], "all latent fluxes, widths and noise draws; both log bases; with and without flux selection",
 "Tests never relate observed to latent fluxes object by object.",
 [S], [("scatter", "draw_log10_fobs/draw_log_fobs"), ("branching", "draw_survey")])

prop("P19", "Luminosity draws follow the documented density",
 "For each luminosity distribution the mapping from the underlying random numbers to luminosities is the one whose law is the documented density: draws lie in the support, and the reported density is the documented normalised density on the support (Pareto: zero below its minimum; broken power law: zero outside its bounds). Distinct objects use distinct random numbers.",
 ["inputs"], "all parameter values in the documented domain and all outcomes of the underlying random numbers, for Pareto, broken power law, Schechter, log-uniform, log-normal, log10-normal and delta",
 "Sampling tests cannot settle a density; only Pareto and Schechter are looked at, at one parameter value.",
 ["popsynth/distributions/pareto_distribution.py", "popsynth/distributions/bpl_distribution.py", "popsynth/distributions/schechter_distribution.py", "popsynth/distributions/uniform_distribution.py", "popsynth/distributions/log_normal_distribution.py", "popsynth/distributions/log10_normal_distribution.py", "popsynth/distributions/delta_distribution.py"],
 [("draws", "draw_luminosity / sample_bpl"), ("densities", "phi")])

prop("P20", "Auxiliary draws lie in their support and follow the documented law",
 "Each built-in auxiliary sampler maps the underlying random numbers to true values by the documented law (normal, log-normal, log10-normal, truncated variants inside their bounds, Pareto, bounded and broken power law, delta, viewing angle uniform in cosine up to the maximum angle). An observed quantity is the true value plus normal noise of the stated width drawn per object, and an unobserved quantity is reported equal to its true value.",
 ["inputs", "configurations"], "all parameter values in the documented domain, all outcomes of the random numbers, observed and unobserved",
 "Tests sample each kind at one parameter setting and check lengths or bounds.",
 ["popsynth/aux_samplers"], [("true values", "true_sampler"), ("observations", "observation_sampler")])

prop("P21", "Sky positions are uniform on the sphere and converted consistently",
 "Sky positions drawn by every distribution other than the spiral galaxy have polar angle in [0, pi] with cosine 1-2u and azimuth 2 pi u' for independent uniform u, u', one pair per object; the sky samplers draw azimuth 2 pi u and declination pi/2 minus such a polar angle, in radians. Everywhere distributions and populations expose them, declination is 90 degrees minus the polar angle in degrees and right ascension is the azimuth in degrees, and the Cartesian conversion preserves the radius and inverts the angles.",
 ["inputs"], "all outcomes of the underlying uniforms, all radii and angles",
 "Tests look only at the norm for fixed numbers.",
 ["popsynth/utils/spherical_geometry.py", DIST, POP, AUX], [("sampling", "sample_theta_phi"), ("conversion", "xyz, ra, dec")])

prop("P22", "Cosmological distances and volumes satisfy their defining relations",
 "The luminosity distance is zero at zero redshift, strictly increasing in redshift, inversely proportional to the Hubble constant and equal to (1+z) times the transverse comoving distance. The differential comoving volume equals (c/H0) D^2 / E(z) with E(z)=sqrt(Om (1+z)^3 + Ode), is zero at z=0 and positive beyond, and the slope of the transverse distance D agrees with (c/H0)/E(z) within one percent for matter densities from 0.25 to 1.",
 ["inputs"], "all redshifts in (0, 20] and all matter densities in [0.1, 0.9], all Hubble constants",
 "Nothing tests these formulas at all.",
 ["popsynth/utils/cosmology.py"], [("distances", "Cosmology.luminosity_distance"), ("volume", "differential_comoving_volume")])

prop("P23", "The generative graph lists exactly the samplers and their dependencies",
 "The graph of a survey has the spatial distribution, the luminosity source and every attached auxiliary sampler (nested ones included) as nodes with an edge from each secondary to the sampler that uses it, an edge from each observed sampler to its observed node, edges from the spatial distribution and the luminosity source to the observed flux, and an edge from the spatial distribution to every auxiliary sampler that uses distance. It has no other edges, and building it works for every valid attachment.",
 ["configurations"], "every combination of observed/distance flags on a primary, its secondary and a nested secondary, with and without derived luminosity",
 "Tests build one graph and never inspect it.",
 [S, AUX], [("graph", "_build_graph / get_secondary_properties")])

prop("P24", "A survey is a function of its seed and configuration only",
 "Two draws from freshly built synthesisers with the same configuration and seed give identical populations whatever random numbers were consumed before. Every random number used in a draw comes from the generator seeded for that draw.",
 ["inputs", "histories", "configurations"], "all random streams, all states of the generators before the draw, every built-in sampler, selection and distribution, progress bars on or off",
 "Tests never draw twice from differently advanced generator states.",
 [S, DIST, AUX], [("seeding", "draw_survey"), ("random draws", "all samplers and selectors")])

prop("P25", "Secondary quantities are sampled first, once, and for the same objects",
 "When an auxiliary sampler is drawn, all its secondaries at any depth have already been drawn for the same number of objects and are visible to it with their own true and observed values; each sampler is sampled exactly once per survey even when shared by several parents. Every sampler that asks for distances, sky positions or luminosities receives those of the same objects, and the population reports for each sampler the very values it drew; luminosities are not provided to samplers that feed a derived luminosity.",
 ["inputs", "configurations"], "all drawn values, all tree and shared-secondary shapes up to three levels, with luminosity distribution or derived luminosity",
 "Tests attach a single secondary level at fixed numbers.",
 [AUX, S], [("recursion", "AuxiliarySampler.draw"), ("collection", "get_secondary_properties"), ("provision", "draw_survey")])

prop("P26", "Cleaning with reset leaves no trace of earlier draws",
 "After a survey was drawn and the synthesiser was cleaned with reset, attaching the same samplers and selections again and drawing gives the same population as a fresh synthesiser would, with no value, selection or size left over from the earlier draw. Cleaning removes every auxiliary sampler, derived luminosity and selection.",
 ["histories", "inputs"], "all random draws of both surveys, both surveys of different sizes, every kind of attachment",
 "Tests clean a synthesiser but never compare the following draw with a fresh one.",
 [S, AUX, SEL], [("cleaning", "PopulationSynth.clean"), ("reset", "AuxiliarySampler.reset / SelectionProbability.reset")])

prop("P27", "Invalid attachments are refused without changing the synthesiser",
 "Attaching an object that is not an auxiliary sampler, a sampler (luminosity sources included) whose name is that of an attached quantity, or an auxiliary sampler already used as a secondary is refused with an error, as is setting something that is no selection or building on something that is no distribution of the kind asked for. A refused attachment leaves the synthesiser's description unchanged, while a valid one is recorded under its own name; a further luminosity source replaces the earlier one.",
 ["histories", "configurations"], "all sequences of up to three attachments over valid and invalid objects",
 "Tests try one or two invalid attachments and do not look at the state afterwards.",
 [S, AUX], [("guards", "add_observed_quantity / set_flux_selection / set_distance_selection / add_spatial_selector / __init__")])

prop("P28", "Ready-made populations pass every argument to the model it names",
 "For every ready-made population, each constructor argument (luminosity and density parameters, maximum distance, seed, rate flag) ends up as the value of the equally named parameter of the distributions it builds and nothing else is altered. The distributions are of the kinds the name announces.",
 ["inputs", "configurations"], "all argument values, every ready-made population class",
 "Tests instantiate each class with fixed numbers without reading parameters back.",
 ["popsynth/populations"], [("constructors", "popsynth/populations/*.py")])

prop("P29", "Reported draw probabilities are the product of the active densities",
 "The probability reported for each object is the spatial rate density at its distance (with the normalising amplitude set to one) times the luminosity density at its luminosity, when a luminosity distribution is used, times the densities of those auxiliary quantities whose selection is not trivial, for every spatial distribution other than the spiral galaxy. It is reported for the object's own values and is unaffected by selection.",
 ["inputs", "configurations"], "all drawn values and parameters; with and without luminosity distribution, auxiliary densities and selections",
 "No test reads the probability at all.",
 [S, DIST], [("product", "draw_survey"), ("densities", "draw_distance / compute_probability")])

prop("P30", "Spatial densities, volumes and time dilation follow the documented formulas",
 "The object density of every built-in spatial distribution equals its documented formula at every distance (constant, power of 1+r or 1+z, star-formation shape, spiral-galaxy radial profile, uniform in redshift) and the volume element is 4 pi r^2 for spherical, one for flat and the comoving volume for cosmological ones. Rates are divided by 1+z for transient populations and left alone for steady ones.",
 ["inputs", "configurations"], "all distances, all parameter values in the declared bounds, transient and steady",
 "The tests exercise these formulas only through drawing.",
 ["popsynth/distributions/spherical_distribution.py", "popsynth/distributions/cosmological_distribution.py", "popsynth/distributions/spiral_galaxy_distribution.py", "popsynth/distributions/uniform_distribution.py", "popsynth/distributions/flatland_distribution.py"],
 [("densities", "dNdV"), ("volumes", "differential_volume"), ("time", "time_adjustment")])

prop("P31", "Log silencing and progress switches are restored faithfully",
 "Silencing logs and re-activating them restores the console and file levels in force just before the first of the silencings since the last re-activation, the temporary console silencer restores both levels on normal and exceptional exit, and warning filters and progress switches do exactly what they say.",
 ["histories", "inputs"], "all initial levels and all sequences of up to four switches",
 "No test covers the switches.",
 ["popsynth/utils/logging.py"], [("state", "LoggingState"), ("context manager", "silence_console_log")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

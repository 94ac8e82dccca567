import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
CL="wcxf/classes.py"
p("C01","Dumping and loading a WCxf object loses and invents nothing",
 "Dumping any EFT, basis or Wilson coefficient object to JSON or to YAML, to a string or to a stream, and loading that text (or stream) again gives an object of the same kind with the same fields, the same values and the same number and text types, and the dumped document contains exactly the public fields of the object. A JSON or YAML file written by hand, in any layout (indentation, comments, quoting, flow style, line endings, escapes), loads to the data it states. Dumping or loading changes neither the object nor, for Wilson coefficients, any registry; an unknown format is refused with ValueError.",
 ["inputs"],"every object whose fields are JSON data (nested mappings with text keys, lists, text incl. YAML-ambiguous and non-ASCII text, numbers, booleans, null), both formats, string and stream, with and without layout options, before and after the object has been used",
 "the tests dump two small hand-written objects and compare nothing but that it works; the data that break a serializer (text looking like numbers, dates or booleans, empty containers, extreme floats, cached private state) are not sampled",
 [CL],[("WCxf.dump / WCxf.load",CL),("YAML representers and constructors for ordered mappings and null",CL)],["text written by dump","fields of the loaded object"])
p("C02","Converting between YAML and JSON keeps the document",
 "Converting a YAML document to JSON, or a JSON document to YAML, writes a document in the requested format that loads to exactly the same data (same mappings, lists, texts and numbers with their types), and converting there and back restores the data. Input that is not well-formed in the source format, and an unknown target format, is reported with a non-zero status.",
 ["inputs","configurations"],"every JSON-representable document with a mapping at the top, in any layout (block, flow, comments, anchors, indentation), both directions, through the Python functions and the command line",
 "two fixed files are converted by the tests and only their loadability is looked at",
 ["wcxf/converters/yamljson.py",CL,"wcxf/cli.py"],[("convert_json / convert_yaml","wcxf/converters/yamljson.py"),("format detection of the loader",CL)],["output stream of the conversion"])
p("C03","A Wilson coefficient file is accepted exactly if all its names exist",
 "Validating a Wilson coefficient object succeeds if and only if its EFT is defined, its basis is defined for that EFT and every coefficient in it is a coefficient of some sector of that basis as it is registered at that moment; otherwise an error (ValueError or AssertionError) is raised. The verdict does not depend on the values, on the number or order of coefficients, on interpreter options or on what was validated before, and validating changes nothing.",
 ["inputs","histories","configurations"],"every set of coefficient names (incl. near misses) against every history of registering, replacing, deleting and clearing EFTs and bases; with and without python -O",
 "the tests try one valid and one invalid file against one fixed registry",
 [CL],[("WC.validate",CL),("Basis.all_wcs",CL)],["exception or return of validate()"],[("instances","registry of EFTs and of bases",CL)])
p("C04","A basis is accepted exactly if it fits its EFT",
 "Validating a basis succeeds if and only if its EFT is defined, every sector of the basis is a sector of that EFT, no coefficient name occurs in two sectors, and the LaTeX code of its coefficients is accepted by the latex program if one is installed; otherwise ValueError is raised. Validating changes nothing.",
 ["inputs","histories","configurations"],"every assignment of coefficients to sectors, every history of definitions, definitions of coefficients with, without and with partial attributes, with no latex, a succeeding and a failing latex program",
 "the tests validate the definition files present in one checkout (none here) and one toy basis",
 [CL],[("Basis.validate",CL)],["exception or return of validate()"],[("instances","registry of EFTs and of bases",CL)])
p("C05","The registries tell exactly what is defined",
 "After any sequence of defining, redefining, deleting and clearing, looking up an EFT, basis, translator or matcher by its name returns the most recent definition of exactly that name and raises for undefined names, and the listings of known bases of an EFT and of known translators of an EFT or basis contain exactly the defined ones. Operations on one registry or name never affect another one, and a failed operation changes nothing.",
 ["histories"],"all histories of definitions (by constructor, by loading a file and by decorator), replacements, deletions and clearings over EFTs, bases, translators and matchers",
 "the tests define one or two instances and look them up once",
 [CL],[("NamedInstanceClass / metaclass item access",CL),("known_bases, known_translators",CL)],["lookup results and listings"],[("instances","per-class registry",CL)])
p("C06","A child basis inherits from its parent without touching it",
 "A basis that names a parent gets every sector of the parent as registered at that moment, except that sectors it defines itself replace the parent's sector as a whole; its list of coefficients is exactly that of the resulting sectors. Nothing else is inherited: its other fields are the ones it was given. The parent and all other bases, and the data the child was created from, stay unchanged, and if the parent is not defined for the same EFT a ValueError is raised and nothing is registered.",
 ["inputs","histories"],"all parent/child sector combinations, chains of inheritance, redefinitions of parent or child, unknown parents, loading from JSON and YAML",
 "one parent/child pair is tested, and only the child is looked at",
 [CL],[("Basis.__init__",CL)],["sectors and all_wcs of child and parent","lookup of the child after failure"],[("instances","registry of bases",CL)])
p("C07","Numbers and WCxf values describe each other exactly",
 "For every coefficient the numerical dictionary of a Wilson coefficient object contains exactly the same names with the number the file states: a plain number (also one that YAML delivers as text, like 1e-3) as itself and a mapping as Re + i Im with a missing part counting as zero. Turning numbers into WCxf values and back reproduces every finite real or complex number exactly, real numbers becoming plain floats and complex ones Re/Im mappings, for Python and numpy numbers alike.",
 ["inputs"],"all finite floats and integers, pure real, pure imaginary and mixed values, tiny to huge, missing parts, text numbers, numpy scalars",
 "the tests convert three values",
 [CL],[("WC.dict",CL),("WC.dict2values",CL)],["WC.dict","result of dict2values"])
p("C08","Translate and match run the registered function and label the result",
 "Translating (matching) a Wilson coefficient object calls the function registered for exactly its EFT and basis and the requested target exactly once, with the object's numbers, its scale and the caller's parameters, and returns a Wilson coefficient object with the target's EFT and basis, the same scale and exactly the non-zero numbers the function returned; an error the function raises reaches the caller. If no such function is registered a ValueError is raised and nothing is called.",
 ["inputs","histories"],"all registry states of translators and matchers, all source objects and targets, with and without parameters, all numbers incl. tiny ones and zeros",
 "one toy translator and one toy matcher with one value are tested",
 [CL],[("WC.translate, WC.match",CL),("Translator.translate, Matcher.match",CL)],["recorded calls of the registered functions","returned object"],[("instances","registries of translators and matchers",CL)])
p("C09","Conversions have no side effects and no memory",
 "Translating, matching, validating, dumping, listing and converting leave the input objects, the given parameters, the default parameters and all registries unchanged, and the result shares no mutable data with them. The result of a conversion depends only on its input and parameters: it is the same after any sequence of other conversions, with any other parameters, as in a fresh process.",
 ["histories","inputs"],"all interleavings of conversions of all shipped translators and matchers, validations and dumps on shared objects, with different parameters and scales",
 "each test runs one conversion once in a fresh setting and looks only at the result",
 ["wcxf/translators/wet.py","wcxf/translators/smeft.py","wcxf/translators/__init__.py","wcxf/matchers/__init__.py","wcxf/matchers/smeft.py","wcxf/util/qcd.py","wcxf/util/smeftutil.py",CL],[("copies of default parameters","wcxf/translators/__init__.py, wcxf/matchers/__init__.py"),("caches of QCD functions","wcxf/util/qcd.py")],["inputs before/after","results in different histories"],[("caches","memoised QCD results","wcxf/util/qcd.py"),("default parameters","module level dictionary","wcxf/parameters.py")])
p("C10","SMEFT coefficients and arrays are equivalent up to operator symmetries",
 "Bringing SMEFT Wilson coefficients into array form fills every index combination so that the arrays have the full flavour symmetry of their operator (hermiticity, exchange of identical currents, Fierz and baryon-number violating relations) and agree with the given independent coefficients; coefficients not given are zero. Going back from arrays to a dictionary gives every element exactly once under its own name, so that the round trip of independent coefficients is the identity; symmetrising is idempotent and changes no argument.",
 ["inputs"],"all SMEFT operators, all index combinations of three generations, all complex values allowed by the symmetry",
 "the tests use a few operators of one symmetry class, and need basis files this checkout lacks",
 ["wcxf/util/smeftutil.py","wcxf/translators/smeft.py"],[("symmetrize, add_missing","wcxf/util/smeftutil.py"),("wcxf2arrays, arrays2wcxf, smeft_toarray, smeft_fromarray","wcxf/translators/smeft.py")],["returned arrays and dictionaries"])
p("C11","Flavour rotations and the Warsaw / Warsaw up translation are exact",
 "Rotating SMEFT coefficients by unitary matrices transforms every flavour index of every operator with the matrix (or its conjugate) of its field and keeps everything else; rotating with the identity changes nothing, and rotating back restores the coefficients. Translating from the Warsaw to the Warsaw up basis rotates the left-handed quark doublets by the CKM matrix and nothing else, and the translation in the opposite direction is its exact inverse for every set of coefficients and every CKM parameters. Both give the coefficients that the target basis defines, and no others.",
 ["inputs","configurations"],"all SMEFT operators and indices, all complex values, all unitary matrices, default and user CKM parameters",
 "one round trip with one random point is tested, and only with basis files this checkout lacks",
 ["wcxf/util/smeftutil.py","wcxf/translators/smeft.py","wcxf/translators/__init__.py"],[("flavor_rotation","wcxf/util/smeftutil.py"),("warsaw_to_warsaw_up, warsaw_up_to_warsaw","wcxf/translators/smeft.py")],["translated coefficients"])
p("C12","Tree-level matching of SMEFT onto WET is the published one",
 "Matching Warsaw or Warsaw up coefficients onto the WET JMS basis yields for every JMS coefficient the tree-level matching formula, i.e. the difference of its values with and without the SMEFT coefficients, rotated to the basis with diagonal down-type quark masses and restricted to the coefficients the JMS basis has; zero SMEFT coefficients give zero. Matching directly to another WET basis or to an EFT with fewer flavours gives the same result as matching to JMS and translating, and restricting, afterwards.",
 ["inputs","configurations"],"all SMEFT coefficients and flavours, arbitrary superpositions, all registered SMEFT matchers, default and user parameters",
 "the tests only check that a few matchings run, and need basis files this checkout lacks",
 ["wcxf/matchers/smeft.py","wcxf/matchers/__init__.py","wcxf/util/smeftutil.py"],[("match_all_array, rotate_down, match_all","wcxf/matchers/smeft.py"),("registered matchers","wcxf/matchers/__init__.py")],["matched coefficients"])
p("C13","Translations out of the WET JMS basis follow the operator definitions",
 "Translating from JMS to the Bern, flavio, EOS and FormFlavor bases gives, for every sector and flavour, exactly the linear combination of JMS coefficients (with colour and Fierz factors, normalisations by G_F, CKM elements, couplings and quark masses at the right scale) that makes the effective Lagrangians equal. Coefficients of one flavour never leak into those of another, and coefficients without a counterpart do not contribute.",
 ["inputs","configurations"],"all JMS coefficients, all flavours, arbitrary complex values, all scales, default and user parameters",
 "the tests compare round trips of single random points with basis files this checkout lacks; most sectors are covered only in that they do not crash",
 ["wcxf/translators/wet.py","wcxf/translators/__init__.py"],[("JMS_to_Bern, JMS_to_flavio, JMS_to_EOS, JMS_to_FormFlavor and the per-sector functions","wcxf/translators/wet.py")],["translated coefficients"])
p("C14","Different translation routes agree and inverse translations invert",
 "Translating JMS to Bern and then to flavio gives the same as translating JMS to flavio directly, flavio to Bern inverts Bern to flavio on the coefficients both have, FlavorKit to JMS inverts JMS to FlavorKit on the coefficients both have, and FlavorKit to flavio agrees with FlavorKit to JMS to flavio. All this holds for every coefficient, every combination of coefficients, and every parameters, as long as the same parameters are used in each step.",
 ["inputs","configurations"],"all coefficients of the source bases, arbitrary complex values and superpositions, scales, default and user parameters",
 "two round trips on single points are tested, and only with basis files this checkout lacks",
 ["wcxf/translators/wet.py","wcxf/translators/__init__.py"],[("Bern_to_flavio, flavio_to_Bern, FlavorKit_to_JMS, JMS_to_FlavorKit, FlavorKit_to_flavio","wcxf/translators/wet.py")],["translated coefficients"])
p("C15","Lowering the number of flavours only drops coefficients",
 "Matching WET onto WET-4, WET-3 or WET-2, in each basis for which this is registered, keeps the value of every coefficient that the target basis (as registered at that moment) has, drops every other one and invents none. Going down in several steps gives the coefficients that all bases on the way have.",
 ["inputs","histories"],"all coefficients of all bases with registered matchers, arbitrary values, all chains of matchings",
 "the tests check a few coefficients of one basis and need basis files this checkout lacks",
 ["wcxf/matchers/__init__.py"],[("registered WET-n matchers","wcxf/matchers/__init__.py")],["matched coefficients"])
p("C16","Running couplings and masses follow QCD at any scale",
 "The strong coupling and quark masses at a scale and number of flavours equal the renormalisation group evolution of the input parameters with decoupling at the quark thresholds: they reproduce the input values at the input scale, change only with scale, flavour number and the relevant inputs, and are the same however often and in whatever order they are asked for. Every user parameter that enters is honoured.",
 ["inputs","histories","configurations"],"all scales, flavour numbers 3 to 6, varied input parameters, all query orders",
 "the tests evaluate a handful of scales with default inputs",
 ["wcxf/util/qcd.py"],[("alpha_s, m_b, m_c, m_s and friends","wcxf/util/qcd.py")],["returned numbers"],[("cache","memoised results","wcxf/util/qcd.py")])
p("C17","User parameters override the defaults, and only for that call",
 "In every translation and matching each parameter the user passes replaces the default one and parameters not passed keep their default, so passing the full set, the changed ones only, or nothing where equal gives identical results, and every result that depends on a physical parameter follows a change of it. Neither the user's mapping nor the defaults change, and the next call without parameters uses the defaults again.",
 ["inputs","histories","configurations"],"all registered translators and matchers, all parameters, all subsets of overridden parameters, sequences of calls",
 "no test passes parameters",
 ["wcxf/translators/__init__.py","wcxf/matchers/__init__.py","wcxf/parameters.py"],[("merging of parameters with defaults","wcxf/translators/__init__.py, wcxf/matchers/__init__.py")],["translated coefficients under varied parameters"],[("p","default parameters","wcxf/parameters.py")])
p("C18","The EOS parameter file contains standard model plus new physics",
 "Converting a Wilson coefficient object to EOS parameters gives exactly the parameters that the EOS installation lists in its WCxf-relevant files, each with central, minimum and maximum equal to the installation's central value plus the new-physics contribution: the real (imaginary) part of the coefficient whose name the parameter's Re{...} (Im{...}) encloses, the real part for a parameter named like a coefficient, and zero if there is none. Charged-current parameters written for a generic lepton take the common value of the electron and muon coefficients, and a ValueError is raised if those differ. Neither the object nor the installation's values are modified.",
 ["inputs"],"all coefficient and parameter names, complex values, present and absent coefficients, all contents of EOS parameter directories",
 "the tests convert one file with a fixed set of parameters",
 ["wcxf/converters/eos.py","wcxf/cli.py"],[("wcxf2eos, get_sm_wcs","wcxf/converters/eos.py")],["returned dictionary / written YAML"])
p("C19","The SMEFTsim card states every coefficient once, at its place",
 "The parameter card for SMEFTsim contains for every Warsaw mass basis coefficient (times the square of the cutoff scale) its modulus and phase, or its real value if the operator is hermitian, at the entry of the card that carries its name, for both model sets and both input schemes; coefficients not given are zero. All other entries are the ones of the standard card, the cutoff scale itself is written, and neither the input nor later cards are affected.",
 ["inputs","configurations","histories"],"all 2499 coefficients, arbitrary complex values, model set A and B, schemes alpha and mw, arbitrary cutoff scale, sequences of cards",
 "the tests only check that one random card can be filled, which needs basis files this checkout lacks",
 ["wcxf/converters/smeftsim.py","wcxf/converters/SMEFTsim_param_card_elements.py","wcxf/cli.py"],[("initialize_smeftsim_card, smeftsim_card_fill, smeftsim_card_text","wcxf/converters/smeftsim.py")],["filled card and written file"])
p("C20","The command line does what it is asked and reports failure",
 "The wcxf, wcxf2eos and wcxf2smeftsim commands read the named file or standard input and write to the named file or standard output the same content the corresponding Python operation produces, in the requested format, and exit with status zero exactly if the operation succeeded. Invalid files, unknown types, formats, bases or EFTs, impossible option combinations and output that cannot be stored end with a non-zero status and no success message.",
 ["inputs","configurations"],"all subcommands, options and their combinations, valid and invalid inputs in both formats, files and pipes",
 "the tests run a few commands on valid input",
 ["wcxf/cli.py","setup.py"],[("wcxf_cli, eos, smeftsim","wcxf/cli.py")],["exit status, standard output, written files"])
p("C21","The LaTeX check reports latex's verdict and leaves nothing behind",
 "Validating the LaTeX code of a basis hands every coefficient's code to the latex program exactly as defined, and fails with ValueError exactly if latex reports failure, whatever log it writes or fails to write, the error quoting the log's first 'Undefined control sequence' or 'Emergency stop' message if it has one; without a latex program it succeeds. In every case, also if the document cannot be written or the check is interrupted, no temporary file or directory remains, the working directory is unchanged, and nothing is written elsewhere.",
 ["inputs","fault_sequences","configurations"],"all LaTeX strings incl. absent ones, all behaviours of the latex program (missing, failing, succeeding, with complete, truncated, empty or no log)",
 "the tests need a latex installation and only try one good and one bad input",
 [CL],[("_testtex",CL),("Basis.validate",CL)],["arguments and input seen by a stand-in latex program","contents of the temporary directory"])
p("C22","Printed tables show exactly the object",
 "The printed form of a Wilson coefficient object shows its EFT, basis and scale and one table row per coefficient with its number; the printed form of a basis shows its name, EFT and description, one section per sector and in it one row per coefficient with its name, LaTeX code and whether it is real or complex, nothing missing, duplicated or out of order. Printing never fails on a well-formed object and changes nothing.",
 ["inputs"],"all bases and Wilson coefficient objects, with or without metadata, attributes, empty sectors, real and complex coefficients",
 "no test looks at printed output",
 [CL],[("__str__, _repr_markdown_",CL)],["str() of the objects"])
p("C23","The Warsaw mass translation diagonalises what it must and nothing else",
 "Translating from the Warsaw to the Warsaw mass basis rotates the left-handed up quarks of the up-type Yukawa-like and dipole operators to the up mass basis with the CKM matrix, brings the dimension-five neutrino mass operator to diagonal form with its (non-negative real) singular values in ascending order, and leaves all other coefficients unchanged.",
 ["inputs","configurations"],"all SMEFT coefficients, arbitrary values and parameters",
 "one random point is translated and only checked not to crash, with basis files this checkout lacks",
 ["wcxf/translators/smeft.py","wcxf/translators/__init__.py"],[("warsaw_to_warsawmass","wcxf/translators/smeft.py")],["translated coefficients"])
p("C24","Importing the package registers every shipped definition file",
 "Importing the package registers every EFT and basis definition file shipped with it under the name stated in the file, with exactly the content of the file, child bases (in the child directory) after the bases they refer to, whatever the file names and their order, and every shipped translator and matcher can be found under its EFTs and bases. The import does not depend on the working directory.",
 ["inputs","configurations"],"all sets of definition files (EFTs, bases, child bases; with any names), any directory listing order and working directory",
 "the tests only see the files of one checkout, and this checkout ships none",
 ["wcxf/__init__.py"],[("module level loading loop","wcxf/__init__.py")],["registries after import"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))

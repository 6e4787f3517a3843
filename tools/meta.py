"""The properties, and what MANIFEST.json says about their checks.

Run without arguments to rewrite properties.jsonl and MANIFEST.json.
"""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QC = "src/libcatnip/qc_functions.cpp"
MX = "src/libcatnip/matrix.cpp"
LR = "src/libcatnip/io/file_readers/logreader.cpp"
PR = "src/libcatnip/io/file_readers/punreader.cpp"
FR = "src/libcatnip/io/file_readers/filereader.cpp"
AP = "src/libcatnip/io/argumentparser.cpp"
IO = "src/libcatnip/io/io.cpp"
MAIN = "src/tools/main.cpp"
PARAM = "src/libcatnip/parameters.cpp"
PA, PAH, LG = PARAM, "src/libcatnip/parameters.hpp", "src/libcatnip/log.hpp"
STR = "src/libcatnip/string_support.cpp"
PROPS = "src/libcatnip/io/arguments/properties/"
ARGS = "src/libcatnip/io/arguments/"

E2E = "calc_J is only exercised by shell scripts on downloaded Gaussian runs that are not part of the stable tests; "
LIBS = "the unit tests use "

P = []


def p(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(
        meta=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)),
        technique=technique, note=note))


COMMON = ("Exploration: a pass means no counterexample among the generated cases of this run, it proves nothing. "
          "The tree is rebuilt with address and undefined-behaviour sanitizers. Trusts the Python reference and "
          "the generator of Gaussian text. ")

p("C01", "calc_J prints the values of the dimer-projection formula",
  "For consistent Gaussian output of a dimer and its two monomers, with c1, c2 the chosen monomer orbitals padded "
  "with zeros to the dimer basis, S the dimer overlap, C the dimer coefficients and E the dimer orbital energies, "
  "calc_J exits 0 and prints J_ab = (c2 S C') E (C S c1), e_a and e_b likewise with c1,c1 and c2,c2, and "
  "S_ab = (c2 S C')(C S c1). J_eff is (J_ab - (e_a+e_b) S_ab/2)/(1-S_ab^2), and the energies are printed in eV "
  "(27.2114 eV per Hartree). This holds for monomers of any and of different size, and when there are fewer "
  "orbitals than basis functions.",
  ["inputs"], "all consistent input files in which the atoms of the dimer are listed in the order monomer 1, monomer 2",
  E2E + "the formula must hold for every size, orbital and coefficient value, while no stable test compares a "
  "transfer integral with an expected number.",
  [QC, MAIN, MX], [("calculate_transfer_integral", QC), ("main", MAIN), ("TransferComplex::calcJ", QC)],
  ["J_ab, e_a, e_b, S_ab and J_eff lines on standard output"],
  "property-based testing of the program against a NumPy reference model",
  "The printed values have six digits, so relative deviations below 6e-6 go unseen; 1-S_ab^2 < 1e-3 is skipped.")

p("C02", "The order of the atoms in the dimer does not change the result",
  "When all three .log files contain the orbital populations (functions per atom), calc_J prints the same J_ab, e_a, "
  "e_b, S_ab and J_eff for every order in which the dimer files list the atoms, with basis functions, coefficients "
  "and overlap matrix listed in that order. Atoms are recognised by their coordinates up to differences well below "
  "half of 1e-4 Angstrom, so that rounding noise between the files does not matter.",
  ["inputs"], "all systems with distinct atom positions, all permutations of the atoms of the dimer",
  E2E + "test_qc_functions permutes one or two hand-made matrices, which reaches a handful of the n! permutations and "
  "none of the combinations with unequal numbers of functions per atom.",
  [QC, MX, MAIN], [("TransferComplex::unscramble", QC), ("unscramble_Coef", QC), ("unscramble_S", QC),
                   ("refreshSwapOrder", QC), ("Matrix::matchCol", MX)],
  ["result lines on standard output", "exit status"],
  "metamorphic and model-based property testing: random atom permutations against a NumPy reference",
  "Coordinates below 200 Angstrom, jitter up to a fifth of the matching unit on either side.")

p("C03", "Counterpoise runs use the full monomer vectors, whatever the atom order",
  "With --counter_poise the monomer orbitals are taken over the whole dimer basis and are not padded: calc_J prints "
  "the values of the same formula for c1 and c2 of full length. When the .log files contain the orbital populations, "
  "the atoms of the two monomer files and of the dimer files may be listed in any three orders without changing the "
  "printed values.",
  ["inputs", "configurations"], "all counterpoise systems with distinct atom positions, all three atom orders",
  E2E + "no stable test runs the counterpoise path at all.",
  [QC, MAIN], [("TransferComplex::unscramble", QC), ("unscramble_Coef (one match vector)", QC),
               ("unscramble_S (one match vector)", QC), ("calculate_transfer_integral", QC)],
  ["result lines on standard output"],
  "model-based property testing with random atom orders of all three files", "")

p("C04", "HOMO-k and LUMO+k select exactly that orbital, all others are refused",
  "With orbital type HOMO and number -k the k-th orbital below the highest occupied one is used for that monomer, "
  "with LUMO and +k the k-th above the lowest unoccupied one, independently for the two monomers. A number of the "
  "wrong sign, or one for which there is no such orbital in the .log file, ends in a non-zero exit without any "
  "printed transfer integral.",
  ["inputs", "configurations"], "all numbers of occupied and unoccupied orbitals and all orbital types and numbers, "
  "including the borders and values far outside",
  E2E + "the borders (deepest HOMO, highest LUMO, one beyond) are never reached by a stable test.",
  [QC, MAIN, LR], [("TransferComplex::calcJ", QC), ("LogReader::getHOMOLevel", LR)],
  ["result lines on standard output", "exit status"],
  "model-based property testing over orbital requests around and beyond the borders", "")

p("C05", "Spin flags choose the coefficients and energies of that spin",
  "For unrestricted runs --spin_1, --spin_2 and --spin_P select, independently of each other, whether the alpha or "
  "the beta coefficients, energies and number of occupied orbitals of that system enter; without a flag alpha is "
  "used. Asking for a spin that a file does not contain ends in a non-zero exit without a printed transfer integral.",
  ["inputs", "configurations"], "all combinations of spins and of restricted and unrestricted files with different "
  "occupations per spin",
  E2E + "no stable test uses a file with two spins.",
  [MAIN, LR, PR], [("getCoefsMatrix", PR), ("getOE / getHOMOLevel", LR), ("sections OEAlpha/OEBeta", LR)],
  ["result lines on standard output", "exit status"],
  "model-based property testing over all spin combinations", "")

p("C06", "Transfer integrals have the symmetries of the formula",
  "Exchanging the two monomers keeps J_ab, S_ab and J_eff and exchanges e_a and e_b; permuting the dimer orbitals "
  "together with their energies, or changing the sign of dimer orbitals, changes nothing; changing the sign of the "
  "orbital of one monomer changes the sign of J_ab, S_ab and J_eff only. Multiplying all dimer energies by a factor "
  "multiplies J_ab, e_a, e_b and J_eff by it and keeps S_ab.",
  ["inputs"], "all systems, and all these transformations applied to the input files",
  E2E + "no test compares two runs with each other.",
  [QC, MAIN], [("calculate_transfer_integral", QC)], ["result lines on standard output"],
  "metamorphic property testing of pairs of runs", "The oracle compares two runs of the program, no reference model.")

p("C07", "Coefficients of .pun files are read as written",
  "Reading a fort.7 file with any number of basis functions and molecular orbitals, for one spin or for alpha "
  "followed by beta, gives one matrix per spin with one row per orbital and one column per basis function that "
  "holds exactly the printed numbers (to double rounding), including those with negative sign and with two- or "
  "three-digit exponents. Both a format line in front and its absence are accepted, other text in front, between the "
  "spins or after the last orbital is ignored, and the file name may end in .pun, .7 or .orb.",
  ["inputs"], "all coefficient matrices, sizes and spins in the (5D15.8) layout of Gaussian",
  "test_punreader reads one fixed file and is not among the stable tests; sizes that are not a multiple of five, "
  "beta sections and exponents are not covered.",
  [PR, FR], [("PunReader::ReadCoef", PR), ("PunReader::readGausCoefLine", PR)],
  ["PunReader::getCoefsMatrix", "PunReader::restrictedShell"],
  "round-trip property testing: write generated matrices, read them back", "Compared at 1e-13 relative.")

p("C08", "The overlap matrix of a .log file is read completely and symmetrically",
  "Reading a .log file whose overlap matrix has any number N >= 1 of basis functions, printed as lower triangle in "
  "blocks of five columns, gives the full symmetric N x N matrix with exactly the printed numbers, including "
  "negative ones and ones with two- or three-digit exponents.",
  ["inputs"], "all N and all matrix elements in the D14.6 layout of Gaussian",
  "test_logreader reads one fixed file and is not among the stable tests; N around multiples of five is not covered.",
  [LR], [("LogReader::OverlapSectionReader", LR)], ["LogReader::getOverlapMatrix"],
  "round-trip property testing: write generated matrices, read them back", "Compared at 1e-13 relative.")

p("C09", "Orbital energies and occupations of a .log file are read as printed",
  "Reading a .log file gives for each spin all printed orbital energies in order, occupied ones first, and the number "
  "of occupied orbitals, also when numbers with three digits before the point follow each other without a space. "
  "When the energies are printed more than once, the last ones count.",
  ["inputs"], "all numbers of occupied and virtual orbitals, spins, energies in the F10.5 layout and repetitions",
  "test_logreader reads one fixed file and is not among the stable tests; merged numbers, beta and repetitions are "
  "not covered.",
  [LR], [("LogReader::ReadOrbEnergies", LR), ("splitStEnergies", LR)],
  ["LogReader::getOE", "LogReader::getHOMOLevel"],
  "round-trip property testing with touching numbers, both spins and repeated tables", "")

p("C10", "The last coordinate table of a .log file is the one that is used",
  "Reading a .log file with one or more coordinate tables gives the x, y and z values of all atoms of the last table, "
  "in the printed order, for either of the two spellings of the table header and whatever number of atoms earlier "
  "tables have.",
  ["inputs"], "all numbers of tables and atoms, coordinates and header spellings",
  "test_logreader reads one fixed file and is not among the stable tests.",
  [LR], [("LogReader::CoordSectionReader", LR)], ["LogReader::getCoords"],
  "round-trip property testing with several tables", "")

p("C11", "The number of basis functions per atom is counted correctly",
  "Reading the gross orbital populations of a .log file gives, in atom order, the number of basis functions of every "
  "atom, and for every function of every atom the printed populations; of several tables the last one counts. This holds for any number of atoms "
  "and functions, one- and two-letter elements, labels with a space such as '5D 0', and one or four columns.",
  ["inputs"], "all atom lists, function counts, element symbols, labels and column counts in the layout of Gaussian",
  "test_logreader reads one fixed file and is not among the stable tests.",
  [LR], [("LogReader::AOFunctionSectionReader", LR), ("LogReader::getBasisFuncCount", LR)],
  ["LogReader::getBasisFuncCount", "LogReader::getOrbitalInfo"],
  "round-trip property testing of generated population tables", "")

p("C12", "A truncated input file never leads silently to a wrong result",
  "When one of the six input files ends early, after any byte outside of a printed energy of the dimer, calc_J either ends with a non-zero exit and prints no "
  "transfer integral, or prints the very result of the intact files, or prints the result of the given atom order "
  "together with its warning that the basis functions could not be lined up. It never hangs or corrupts memory, "
  "wherever the file ends.",
  ["fault_sequences", "inputs"], "all systems, all six files and all truncation points",
  "the crash point of the run that wrote the file is arbitrary; no test truncates a file.",
  [LR, PR, FR, QC, MAIN], [("section readers", LR), ("PunReader::ReadCoef", PR), ("TransferComplex", QC)],
  ["exit status", "result lines on standard output", "warning on standard error"],
  "fault injection: generated systems with one file cut at a generated byte",
  "A cut inside a dimer energy may leave a shorter number that looks complete: there only crashes and hangs count.")

p("C13", "Malformed input files are refused without memory errors or hangs",
  "For .log and .pun files with arbitrary damage (lines dropped, doubled, swapped or cut, characters replaced, "
  "numbers overwritten with text, arbitrary bytes) calc_J ends by itself, either with a result or with a non-zero "
  "exit, without reading or writing outside its memory and without undefined behaviour.",
  ["inputs", "fault_sequences"], "all contents of the six input files",
  "the tests only read well-formed files, and do so without sanitizers.",
  [LR, PR, FR, MX, QC], [("section readers", LR), ("PunReader::ReadCoef", PR), ("Matrix element access", MX)],
  ["exit status and sanitizer reports of calc_J"],
  "mutation fuzzing of generated files under address and undefined-behaviour sanitizers", "")

p("C14", "Inputs that contradict each other are refused",
  "When the files of a run do not belong together - a monomer atom that is missing in the dimer or that coincides "
  "with an atom of the other monomer, an overlap matrix or functions per atom of the dimer that do not match its number "
  "of coefficients, a number of energies of any part that differs from its number of orbitals, monomers that together "
  "do not have the size of the dimer, or a counterpoise run with short monomer vectors - calc_J ends with "
  "a non-zero exit and prints no transfer integral.",
  ["inputs"], "all consistent systems with one of these contradictions introduced",
  E2E + "and the scripts only use matching files.",
  [QC, MX], [("TransferComplex constructor", QC), ("checkMatch / checkBasis", QC), ("operator* size check", MX)],
  ["exit status", "result lines on standard output"],
  "fault injection: one contradiction in an otherwise consistent generated system", "")

p("C15", "Command line options mean the same in any order and spelling",
  "Long and short spellings of every option are equivalent and the order of the options does not matter; of an "
  "option given twice the last value counts, and omitted ones have their documented defaults (spin Alpha, orbital "
  "HOMO, number 0, no counterpoise). --counter_poise takes an optional ON/OFF/TRUE/FALSE/1/0; values outside the "
  "documented choices, wrong file extensions, unknown options and missing values are refused with a non-zero exit.",
  ["configurations", "inputs"], "all option lists built from the documented options in both spellings, with valid and "
  "invalid values",
  "test_parameters is one line long, and test_argumentparser and the scripts try a few fixed command lines.",
  [IO, AP, PARAM], [("prepareParser", IO), ("prepareParameters", IO), ("ArgumentParser::parseArg_", AP)],
  ["accessors of the parameters object", "exception on refusal"],
  "model-based property testing of generated command lines against a reference interpreter", "")

p("C16", "A missing .log or .pun argument is completed by the file of the same name",
  "When of a pair only the .pun (.7, .orb) or only the .log file is given, the file in the same directory with the "
  "same name and the other extension is used if it exists; the printed path names that file. This holds for "
  "relative and absolute paths, names with several dots and spaces, and for each of the three systems independently; "
  "an explicitly given existing file always wins, and without any candidate the run is refused.",
  ["configurations", "inputs"], "all combinations of given and omitted files, existing companions and path names",
  "test_propertysisterfile and test_script_io use a few fixed names in one directory.",
  [IO, PROPS + "propertysisterfile.cpp", STR], [("prepareParameters", IO), ("PropertySisterFile::propValid",
                                                  PROPS + "propertysisterfile.cpp")],
  ["file lines on standard output / accessors of the parameters object"],
  "model-based property testing of generated directories and command lines", "")

p("C17", "Help, version and citation always answer and exit successfully",
  "A command line of only --help and --citation (long or short, in any order and number) prints the usage and/or the "
  "citation, and exits with status 0; --version or -v as the first option prints the version and exits with status 0, "
  "whatever follows. The usage lists every option with its abbreviation and an explanation. No transfer integral is computed in either case, and no input file is needed.",
  ["configurations"], "all lists of these flags, and arbitrary further arguments after the version flag",
  "the scripts that try some of them are not among the stable tests.",
  [AP, MAIN], [("ArgumentParser::parse", AP)], ["standard output", "exit status"],
  "property testing of generated flag lists", "")

p("C18", "ArgumentParser stores what was given and refuses what is not allowed",
  "For any parser set up with string, int, double, file and switch flags with a long and a short name, choices, "
  "bounds and defaults, parsing a command line makes each getter return the last value given for its flag, or the "
  "default if there is none, and throws for unknown flags, missing values and values outside the bounds or "
  "choices. A bare switch is ON, the value after a switch is its own. The rules in force for a flag (bounds, choices, "
  "extensions allowed, companion extensions), and whether the files named exist, are reported back. -h and --help "
  "print every flag with its abbreviation and description and exit with status 0. A value that was refused is never given back later. Parsers are independent of each other.",
  ["configurations", "histories"], "all parser set-ups and command lines from a generated grammar",
  "test_argumentparser tries a handful of fixed set-ups.",
  [AP, AP.replace(".cpp", ".hpp")], [("setFlagArgOpt / addFlagArg", AP), ("parseArg_", AP), ("setFlagDefaultValue", AP)],
  ["getInt / getDouble / getStr", "exceptions"],
  "model-based property testing of generated set-ups and command lines", "")

p("C19", "Argument rules accept exactly the values they describe",
  "An int or double rule accepts a value exactly if MIN <= value <= MAX, a string rule if its length is within "
  "MIN_LENGTH and MAX_LENGTH, an enforced choice if it is one of the choices, a switch if it is 0/1/ON/OFF/TRUE/FALSE, "
  "an extension rule if the extension of the file name is allowed, and a must-exist file rule (checked after parsing) "
  "if the file exists. Everything else is refused by an exception, and after any sequence of settings the "
  "latest one counts and can be read back. A companion-file rule reports, for each of its extensions in order, the name "
  "with that extension in the same folder and whether that file exists.",
  ["inputs", "histories"], "all rules with generated limits and sequences of settings, and values inside, on and "
  "outside the limits",
  "the unit tests of the rules try one or two values each.",
  [PROPS + f for f in ("propertyint.cpp", "propertydouble.cpp", "propertystring.cpp", "propertystringchoice.cpp",
                       "propertyswitch.cpp", "propertyfileext.cpp", "propertyfileexist.cpp")] +
  [ARGS + "argumentobject.hpp"],
  [("propValid", PROPS), ("setPropOption", PROPS), ("argValid / postArgCheck", ARGS + "argumentobject.hpp")],
  ["propValid / argValid / postCheck", "getPropOption / getPropertyValues"],
  "stateful property testing against a reference model of each rule", "")

p("C20", "A Matrix behaves like a table of numbers under any sequence of operations",
  "After any sequence of setting elements, rows and columns, resizing, changing the number of rows, columns or "
  "shelves, swapping and moving rows and columns, copying and assigning, every element of every Matrix has the value of a "
  "reference table: kept elements keep their value and position, new ones are 0, and copies are independent of each "
  "other. Printing a Matrix shows each element in its place.",
  ["histories"], "all operation sequences on several matrices of any size (moves, swaps, rows and columns for one "
  "shelf)",
  "test_matrix checks single operations on fixed small matrices, no sequences and no copies.",
  [MX], [("set_* / resize / swap_* / move_*", MX), ("copy constructor and assignment", MX), ("operator<<", MX)],
  ["get_elem, get_row, get_col, getRow, getCol, get_rows, get_cols, get_shel, total_elem"],
  "stateful model-based testing of generated operation sequences", "")

p("C21", "Access outside of a Matrix is refused",
  "Reading or setting an element, row or column with an index below 1 or above the size of the Matrix, setting a row "
  "or column of the wrong length, and passing a negative size is refused by an exception or a non-zero "
  "exit; it never returns a value or touches memory outside of the Matrix.",
  ["inputs"], "all matrices of any size and all indices, valid ones and invalid ones near and far",
  "test_matrix tries almost no invalid index, and a stray read may stay unnoticed without sanitizers.",
  [MX], [("range checks in get_elem / set_elem / set_row / set_col / get_row / get_col / getRow / getCol / move_* / swap_*", MX)],
  ["exception, exit status, sanitizer report"],
  "property testing of every accessor with generated indices under sanitizers", "")

p("C22", "Matrix algebra agrees with its definition",
  "The product of two matrices, the transpose (invert), the diagonal matrix of a vector, the copy, and the "
  "concatenation by rows and by columns have the sizes and the elements of their definition for all compatible "
  "sizes, and leave their arguments unchanged; incompatible products are refused.",
  ["inputs"], "all compatible matrix sizes and finite values (products to rounding, all others exactly)",
  "test_matrix has one or two fixed examples per operation, mostly square ones.",
  [MX], [("operator*", MX), ("invert", MX), ("Matrix_diag", MX), ("Matrix_copy", MX), ("Matrix_concatenate_rows/cols", MX)],
  ["returned Matrix"],
  "differential property testing against exact rational arithmetic / NumPy", "")

p("C23", "Matching rows and columns finds equal ones and only those",
  "matchRow and matchCol return, for every row (column) of the first matrix, the index of a row (column) of the second "
  "one whose entries all agree to the given number of decimals, and -1 exactly if there is none. Entries that "
  "differ only by noise well below half of the last decimal agree (also around zero, and on the border between two "
  "decimals), and ones that differ by about a unit of it or more do not. Rows of different lengths are refused.",
  ["inputs"], "all matrices of up to twelve significant digits, numbers of decimals 0 to 9, duplicates and noise below 0.2 units on either side",
  LIBS + "two fixed matrices with exactly equal entries.",
  [MX], [("Matrix::matchRow / matchCol", MX), ("agree", MX)], ["returned index vector"],
  "model-based property testing on integer grids with noise", "")

p("C24", "Reordering by atoms puts every block where the match says",
  "Reordering dimer coefficients by the match vectors of two monomers, or of one, puts the columns of the atom that "
  "match[i] names at the i-th place and keeps each atom's functions together and in order; the overlap matrix is "
  "reordered likewise in rows and columns, so that it stays symmetric. No column is lost or doubled, also if the "
  "match covers only part of the atoms, and the given matrix is left unchanged.",
  ["inputs"], "all permutations of atoms (exhaustively up to 5 atoms) and numbers of functions per atom",
  LIBS + "a few fixed permutations.",
  [QC], [("unscramble_Coef", QC), ("unscramble_S", QC), ("refreshSwapOrder / updateSwapLists", QC)],
  ["returned Matrix"],
  "exhaustive small permutations plus model-based property testing of larger ones", "")

p("C25", "findRank orders all alpha and beta energies",
  "findRank returns the ranks 1..n for the n alpha and beta energies together: the energies do not decrease with the "
  "rank, and every energy appears exactly as often and with the same spin as in the input.",
  ["inputs"], "all pairs of energy vectors of any lengths, with duplicates and without beta",
  LIBS + "one fixed pair of vectors.",
  [QC], [("findRank", QC)], ["returned map"], "property testing: ordered permutation of the input", "")

p("C26", "String and path helpers agree with their definition",
  "Splitting by white space, trimming, taking the path or the last part of a path, the first or last n characters, and "
  "the text before or after the first or last occurrence of a separator agree with their definition for every "
  "string; path and last part together give the path again.",
  ["inputs"], "all ASCII strings including empty ones, ones without separator and ones that are nothing but separators",
  "test_string_support has about one example per function.",
  [STR], [("splitSt, trim, getPath, lastStringInPath, grabStr*", STR)], ["returned strings"],
  "differential property testing against Python's string operations", "")

p("C27", "Results do not depend on the surrounding text or section order of a .log file",
  "The overlap matrix, energies, coordinates and functions per atom that are read from a .log file are the same for "
  "every order of these sections and for every unrelated text before, between and after them. Reading "
  "one file does not influence what is read from another one.",
  ["inputs"], "all orders of sections and unrelated lines in between (lines of real Gaussian output included)",
  "test_logreader reads one fixed file and is not among the stable tests.",
  [LR, FR], [("FileReader::read / startSection_", FR), ("pos_ bookkeeping of the energy sections", LR)],
  ["accessors of LogReader"],
  "metamorphic property testing: permuted sections with noise against the plain file", "")

p("C28", "Without orbital populations the given order is used, with a warning",
  "When at least one of the three .log files has no gross orbital populations, calc_J warns on standard error that it "
  "cannot line up the basis functions, and prints the formula's values for the orders in which the files list "
  "them; when all three have them there is no such warning. A TransferComplex of the library does the same, every one "
  "in a process, unless its unscramble was called.",
  ["inputs", "configurations"], "all systems and all eight combinations of files with and without populations, with "
  "and without counterpoise",
  E2E + "no stable test covers files without populations.",
  [MAIN, QC], [("main", MAIN), ("TransferComplex::calcJ", QC)],
  ["standard error", "result lines on standard output"],
  "model-based property testing over the eight combinations", "")

p("C29", "The library computes the effective transfer integral to full precision",
  "calculate_transfer_integral and TransferComplex return J_eff of the formula in Hartree, accurate to rounding, with "
  "and without counterpoise, for any sizes. TransferComplex lines up scrambled dimers by the coordinates before, "
  "leaves the result unchanged when asked a second time, and throws for matrices whose sizes do not fit and "
  "for orbital types and numbers that do not exist.",
  ["inputs", "histories"], "all matrices, orbital requests and sequences of requests on one object",
  LIBS + "one or two fixed matrices, mostly without comparing the value.",
  [QC], [("calculate_transfer_integral", QC), ("TransferComplex", QC)],
  ["return value", "exceptions"],
  "model-based property testing of the library interface", "")

p("C30", "Results depend on nothing but the arguments and file contents",
  "Two runs of calc_J on the same files give byte-identical results, whatever the working directory, the names and "
  "location of the files, the contents of fresh memory and the number of runs before; calc_J creates, changes "
  "and removes no file.",
  ["inputs", "configurations"], "all systems, path spellings and memory contents",
  "a test samples one environment; an uninitialised value shows only for some memory contents.",
  [MAIN, QC, MX], [("main", MAIN), ("Matrix constructors (zero initialised)", MX)],
  ["standard output", "files in the working directory"],
  "metamorphic property testing with poisoned heap memory and changed paths",
  "Heap contents are varied with two fill patterns of the sanitizer allocator.")

p("C31", "The report names the spins and orbitals used and gives each value once",
  "A successful run of calc_J reports the six files (`log file for first monomer is: ...`), `Dimer Spin S`, and for each "
  "monomer `Monomer n Spin S Orbital O`, where S is Alpha or Beta and O is HOMO, HOMO-k, LUMO or LUMO+k, each line once and "
  "true for the values that follow: J_ab, e_a, e_b, S_ab and J_eff, each once, all in eV but for S_ab. This holds for all "
  "spins and orbitals, given or left to the default, and any order of the options.",
  ["inputs", "configurations"], "all systems, spins and orbital choices",
  "no test looks at what calc_J prints.",
  [MAIN, QC], [("main", MAIN), ("TransferComplex::transfer_", QC)], ["standard output"],
  "property testing of generated runs against reference and expected report", "")

p("C32", "Readers work again and side by side: each gives what its file last held",
  "Whenever a LogReader or PunReader reads a whole file, it gives exactly what the file holds at that time, also when it "
  "has read before: another content, of other size, a file that ended early, or none. Other readers have no influence. "
  "What the file does not hold is not given, even if an earlier content had it. "
  "Reading a file that does not exist is refused, and so is a reader for a file with another extension than those of its kind.",
  ["histories"], "all sequences of writing, cutting and removing files, reading and asking",
  "the tests read one fixed file once.",
  [PR, LR, FR], [("FileReader::read", FR), ("FileReader::open", FR), ("LogReader section readers", LR)],
  ["getCoefsMatrix, getOverlapMatrix, getOE, getHOMOLevel, getCoords, getBasisFuncCount", "exceptions"],
  "model-based property testing of generated histories", "")

p("C33", "Diagnostic messages depend on the level only and never change a result",
  "LOG(message, level) prints `file:line: message` and a line end if level <= LOG_LEVEL and nothing otherwise, for any "
  "sequence of strings, numbers and manipulators, and evaluates the message once. calc_J built with a higher LOG_LEVEL prints "
  "the same report, errors and exit status with only such lines added; with level 0 there are none. The readers and "
  "TransferComplex answer the same requests alike at any level.",
  ["inputs", "configurations"], "all messages, levels, runs of calc_J and sequences of library requests",
  "test_log prints three messages that no one compares.",
  [LG, MAIN], [("LOG, Log, output", LG)], ["standard output", "standard error", "exit status"],
  "differential property testing of two builds, and model-based testing of messages", "")

p("C34", "Parameters keep what was set and refuse files of other types",
  "A Parameters object gives back the value set last for each of its fields, and before that empty names and types, the "
  "number 0 and false; copies are independent. Log files must end in .log, coefficient files in .pun, .7 or .orb; another "
  "name is refused with an exception and leaves the value unchanged.",
  ["histories"], "all sequences of set and get operations",
  "test_parameters sets one value per field.",
  [PA, PAH], [("Parameters::setLog1 ... setPunP", PA), ("Parameters", PAH)], ["getters", "exceptions"],
  "model-based property testing of operation sequences", "")

p("C35", "Contradictory definitions of flags and rules are refused",
  "Defining a flag without a long name, with two long or two short names, two descriptions or more than three texts, adding "
  "an unknown type of argument or the same type a second time, setting or asking for a property or option that the argument "
  "does not have, and setting a value of another type or one that the option does not take (a switch that is neither ON, "
  "OFF, 0 nor 1, STRING_CHOICE_ENFORCED other than true or false, an extension with text before the point, names of "
  "companion files) is refused by an exception. The definitions made before and after stay in force.",
  ["histories"], "all histories of right and wrong definitions of a parser, and all command lines after them",
  LIBS + "one wrong call each, if any, and do not look at what it leaves behind.",
  [AP, ARGS + "argumentobject.hpp", PROPS + "propertyobject.hpp", PROPS + "propertystringchoice.cpp",
   PROPS + "propertysisterfile.cpp", PROPS + "propertyfileext.cpp"],
  [("ArgumentParser::ArgumentParser", AP), ("setFlagArgOpt, addFlagArg", AP), ("setArgPropertyOpt", ARGS + "argumentobject.hpp")],
  ["exceptions", "getInt, getDouble, getStr, getFlagArgOptValue after parse"],
  "model-based property testing with injected wrong definitions", "")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x["meta"]) + "\n")
    checks, na = [], []
    for x in P:
        i = x["meta"]["id"]
        if os.path.exists(os.path.join(ROOT, "vf", "checks", i.lower() + ".py")):
            checks.append({
                "property": i, "quick_cmd": "./check.py %s --tier quick" % i,
                "thorough_cmd": "./check.py %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": x["technique"], "level": "exploration", "level_note": (COMMON + x["note"]).strip()})
        else:
            na.append({"property": i, "reason": "The check is not built yet."})
    m = {"version": 1, "setup_cmd": "./check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks: the checks use the public interface of the library and of calc_J. "
                  "Repairs of genuine defects are the fix: commits listed in known_findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for x in P:
        assert len(x["meta"]["title"]) <= 80, x["meta"]["title"]
    print(len(checks), "checks,", len(na), "not claimed")


if __name__ == "__main__":
    main()

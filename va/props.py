"""The properties (source of properties.jsonl and MANIFEST.json; see gen.py)."""

ASSUMPTIONS = [
    'The sources are analysed as clang parses them with NDEBUG; asserts do not '
    'count as checks.',
    'Loops are summarised by zero iterations and one generic iteration; '
    'standard containers and algorithms behave as documented.',
    'A construct the analysis does not recognise is reported as undecided, '
    'never as a violation.',
]

TX = 'include/vara/Feature/FeatureModelTransaction.h'
FM = 'include/vara/Feature/FeatureModel.h'
FMC = 'lib/Feature/FeatureModel.cpp'
BLD = 'include/vara/Feature/FeatureModelBuilder.h'
FEA = 'include/vara/Feature/Feature.h'
NODE = 'include/vara/Feature/FeatureTreeNode.h'
CON = 'include/vara/Feature/Constraint.h'
TXC = 'lib/Feature/FeatureModelTransaction.cpp'
PAR = 'lib/Feature/FeatureModelParser.cpp'
WRI = 'lib/Feature/FeatureModelWriter.cpp'
CPH = 'include/vara/Feature/ConstraintParser.h'
CBH = 'include/vara/Feature/ConstraintBuilder.h'
Z3C = 'lib/Solver/Z3Solver.cpp'
SFC = 'lib/Solver/SolverFactory.cpp'
CFG = 'lib/Configuration/Configuration.cpp'
STP = 'include/vara/Feature/StepFunction.h'
STPP = 'include/vara/Feature/StepFunctionParser.h'
FSR = 'include/vara/Feature/FeatureSourceRange.h'

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(),
                      qtext=qtext, why=why, files=files, mech=mech))


P('P01', 'Only well-formed models are ever committed',
  'Committing a transaction reports success only if, after its last edit, the '
  'model has exactly one root feature that is the root of the model, every other '
  'feature has a parent feature, and every parent lists the feature among its '
  'children. If one of these does not hold, commit returns an error; a copy '
  'transaction then returns no model.',
  'histories inputs', 'every model and every sequence of edits before a commit',
  'Tests commit a few fixed edit sequences; whether every path of commit passes '
  'the complete check needs all paths.',
  [TX, FM], [('commit of both transaction modes', TX), ('consistency rules', FM)])

P('P02', 'Copy transactions never touch the original model',
  'A copy transaction works on a deep copy of the model it was opened for. No '
  'edit, commit or abort of a copy transaction changes the original model or '
  'links one of its nodes into the copy, also when nodes of the original model '
  'are passed as arguments.',
  'histories inputs', 'every edit, with features given by name or by pointer',
  'Tests look at single edits; that no edit on no path stores or changes a node '
  'of the original needs the provenance of every object that is written.',
  [TX, FMC], [('translation of arguments into the copy', TX), ('cloning when opened', TX)])

P('P03', 'Edits apply exactly as requested, at commit and in order',
  'A modify transaction leaves the model untouched until commit; commit then '
  'applies the recorded edits in the order in which they were requested, stops '
  'at the first one that fails and returns its error. Each successful edit has '
  'exactly the requested effect on exactly the requested features, and an '
  'aborted or already committed transaction changes nothing.',
  'histories inputs', 'every sequence of edits, commits and aborts',
  'The order of effects over arbitrary histories cannot be enumerated by tests.',
  [TX], [('recorded modifications', TX), ('commit of modify transactions', TX)])

P('P04', 'Parent and child references always change together',
  'Whenever an edit attaches a feature or group to a parent, the node names that '
  'parent and the parent lists it as a child, and a former parent no longer '
  'lists it. No edit leaves a child entry without the parent reference or a '
  'parent reference without the child entry, and children are never changed '
  'while they are being iterated.',
  'histories inputs', 'every edit of the tree in both transaction modes',
  'Half-updated trees only show later, in another operation; tests look at one '
  'direction of the reference.',
  [TX, NODE], [('setting parents and edges in the modifications', TX)])

P('P05', 'Impossible edits are rejected with their error, changing nothing',
  'An edit that names a feature, parent or group that does not exist, a name '
  'that is already taken, the removal of the root or of a non-leaf feature '
  '(unless recursive), moving a node below itself, or a constraint over missing '
  'features, is rejected with the matching error and without changing the model. '
  'No edit dereferences a node that does not exist.',
  'inputs histories', 'every argument of every edit',
  'Tests try a few impossible edits; every path on which an argument does not '
  'resolve has to reject it.',
  [TX], [('checks at the beginning of each modification', TX)])

P('P06', 'Removing features and groups leaves no reference to them',
  'After a feature has been removed, the model no longer lists it, its parent '
  'has no child entry for it, it is not the root, no group below it remains, and '
  'no constraint over it remains in the model or attached to another feature. '
  'Removing a group removes exactly that group and moves its members to the '
  'parent.',
  'histories inputs', 'every removal in every model',
  'Dangling references surface only in later operations on particular models.',
  [TX, FMC, FM, FEA], [('removal of a feature from the model', FMC),
                       ('removal modifications', TX),
                       ('lists of attached constraints', FEA)])

P('P07', 'Models can only be changed through transactions and builders',
  'No public operation of a model, feature or group changes its tree, name, path, commit, '
  'root, groups, constraints or lists of attached constraints, or hands out modifiable access '
  'to them; modifications of a model are only created and applied by transactions. Programs '
  'that try to change a model otherwise do not compile. (Source locations may be changed '
  'directly.)',
  'programs', 'every program written against the public interface',
  'A test cannot show that no program compiles; access control decides it.',
  [FM, FEA, NODE, TX], [('private mutators and friends', NODE)])

P('P08', 'Cloning a model yields a complete and independent copy',
  'The clone of a model has the same name, path, commit, features (with kind, '
  'optionality, output string, locations, values and step functions), tree, '
  'groups and constraints. It shares no node, constraint or step function with '
  'the original.',
  'inputs', 'every model',
  'Tests clone a few models; a forgotten attribute only shows for models that use it.',
  [FMC, CON, STP], [('clone of a feature model', FMC), ('clone of constraints', CON),
                    ('clone of step functions', STP)])

P('P09', 'Merging models keeps every feature and rejects conflicts',
  'Merging adds every feature that only the second model has, below the same '
  'parent and with all its attributes, and the locations that a common feature '
  'lacks, to a copy of the first model. Common features need parents of the same '
  'name and, if merging is strict, the same kind, optionality, kind of parent and '
  'values; exactly if one differs no model is returned. Neither input is changed.',
  'inputs', 'every pair of models',
  'The number of property combinations on which two models may agree or conflict '
  'is unbounded.',
  [TXC], [('merging of models', TXC)])

P('P10', 'Constraint trees are complete: cloned, visited and linked fully',
  'Cloning a constraint yields the same operator over clones of the same '
  'operands in the same order; visiting a constraint reaches every operand, also '
  'after an earlier one has reported failure, and succeeds only if all of them do. '
  'Every operand knows its enclosing constraint, and looking for the root of a '
  'constraint yields the outermost one.',
  'inputs', 'every constraint tree',
  'Constraint trees are unbounded; tests contain a few shapes.',
  [CON], [('constraint classes', CON), ('visitor', CON)])

P('P11', 'Printed constraints mean the same when parsed again',
  'Each operator is printed with a symbol that the constraint parser reads as '
  'the same operator, binary constraints are parenthesised, and operands keep '
  'their order; names and non-negative numbers are printed as they are. The HTML form is the same text with all special characters '
  'escaped, at every nesting depth.',
  'inputs', 'every constraint, every operator',
  'There are twenty operators and unbounded nesting; tests print a few.',
  [CON, CPH], [('printing of constraints', CON), ('token table', CPH)])

P('P12', 'Operators bind with the documented precedence and associativity',
  'Multiplication and division bind tighter than addition and subtraction, those '
  'tighter than comparisons, then equality, conjunction, (exclusive) disjunction, '
  'implication and equivalence; operators of equal precedence group from the left. The textual '
  'parser and the programmatic builder agree, and unary operators and parentheses '
  'bind tighter than any binary operator. A sequence of builder calls that is not an '
  'expression (an operand after an operand, an operator or parenthesis without its operand, '
  'an open parenthesis left) yields no constraint.',
  'inputs', 'every expression',
  'Pairs and triples of twenty operators are not enumerated by the tests.',
  [CPH, CBH], [('precedence of tokens', CPH), ('precedence in the builder', CBH)])

P('P13', 'Parsing any constraint text terminates; nonsense is rejected',
  'For every input text the constraint parser terminates, never reads beyond the '
  'text, and returns either a constraint that covers the whole text (up to an '
  'end-of-file character) or nothing. '
  'Each token of the text yields the operator, number or feature it stands for.',
  'inputs', 'every text',
  'Arbitrary text is unbounded.',
  [CPH], [('lexer', CPH), ('recursive descent', CPH)])

P('P14', 'Reading a model file keeps every element and attribute',
  'Every option of a valid model document becomes a feature of the right kind '
  'with its name, optionality, output string, parent, values or value range, step '
  'function and all of its locations; implied and excluded options and all '
  'constraints become constraints of the model. The name and the root of the model '
  'are those of the document.',
  'inputs', 'every valid document',
  'Tests read a few documents, not each element in each combination.',
  [PAR], [('reading of options, constraints and locations', PAR)])

P('P15', 'Invalid model files are rejected as a whole',
  'A document that is not well-formed, violates its schema, has constraints that '
  'cannot be parsed or two parents for a feature, or whose features, edges and groups the '
  'model rejects yields no model at all instead of a partial one. Reading never '
  'terminates the program, and attributes the schema does not require are only used if present.',
  'inputs', 'every input document',
  'Malformed inputs are unbounded; each failure inside the reader has to be propagated.',
  [PAR], [('error propagation of the readers', PAR)])

P('P16', 'Writing a model file writes every element and attribute',
  'For every feature the written document has an option of the matching section '
  'with its name, output string, parent, children, implied and excluded options, '
  'optionality, value range or values, step function and all locations; all '
  'constraints of the model are written. Every written value is the current one of the model.',
  'inputs', 'every model',
  'Forgotten elements only show for models that use them.',
  [WRI], [('writing of features, constraints and locations', WRI)])

P('P17', 'Failures while writing are reported',
  'If the document cannot be built or the file cannot be opened, writing returns '
  'an error code or nothing; it never reports success. Resources acquired for '
  'writing are released on every path.',
  'fault_sequences', 'every failing library call during writing',
  'The failing library calls cannot be provoked by the tests.',
  [WRI], [('results of the XML library', WRI)])

P('P18', 'Mutually exclusive children become an alternative group',
  'After reading a document, a feature gets an alternative group exactly if it '
  'has several children, all of them mandatory, and every child excludes every '
  'other child. No other group is invented.',
  'inputs', 'every set of children and exclusions',
  'The set of exclusion patterns is exponential; tests have three.',
  [PAR], [('detection of alternatives', PAR)])

P('P19', 'Reading SXFM files preserves the tree, groups and formulas',
  'Each non-blank line of the feature tree of an SXFM file becomes one feature: the root '
  "for ':r', an optional feature for ':o', a mandatory one for ':m', ':g' and a plain member "
  "of a group (': '); it is put below the latest line that is indented by one step less. The "
  "children of a ':g' line form a group of that line's feature, an alternative group for "
  '[1,1] and an or group for [1,*]. Other markers or cardinalities, lines indented by several '
  'further steps and lines without a parent make the file invalid. Each non-blank line of the '
  "constraints becomes one boolean constraint, with '~', 'or' and 'and' read as the operators "
  'and each identifier as the feature of its line; a line that is no constraint makes the file '
  'invalid.',
  'inputs', 'every SXFM document',
  'Documents are unbounded; tests read three.',
  [PAR], [('reading of the SXFM tree', PAR), ('reading of SXFM constraints', PAR)])

P('P20', 'The solver encodes each operator with its meaning',
  'Every operator of a boolean or mixed constraint becomes the solver operation '
  'with the same meaning over its operands in order. A constraint that should '
  'only hold if all its features are selected is conditional on exactly its '
  'features; a negated constraint is asserted negated.',
  'inputs', 'every constraint',
  'Solver tests check a handful of formulas.',
  [Z3C], [('constraint visitors of the solver', Z3C)])

P('P21', 'The solver encodes the feature tree with its meaning',
  'Selecting a feature implies its parent; selecting a parent implies its '
  'mandatory children outside groups; an alternative group of a selected parent '
  'has exactly one selected member and an or group at least one; the root is '
  'always selected; numeric features take only their values. Features that '
  'exist already or whose parent is missing are reported as errors.',
  'inputs', 'every tree',
  'Each combination of kind, group and optionality would need its own test.',
  [Z3C], [('adding features and relationships to the solver', Z3C)])

P('P22', 'The solver receives the complete model',
  'When a model is loaded into a solver, every feature, every group and every '
  'constraint of each kind is added, each exactly once and with its own '
  'parameters, parents before children.',
  'inputs', 'every model',
  'An omitted collection changes results only for models that use it.',
  [SFC], [('loading of a model', SFC)])

P('P23', 'Enumerating configurations never repeats one',
  'Each configuration returned by the solver is excluded from further '
  'enumeration by the values of all its features, and the end of the enumeration '
  'is reported. Asking for all or the first n configurations returns each '
  'configuration found, once, and at most n.',
  'inputs histories', 'every model and every number of requested configurations',
  'Distinctness over all models and lengths of enumeration is unbounded.',
  [Z3C, 'include/vara/Solver/ConfigurationFactory.h'],
  [('next configuration', Z3C), ('configuration factory', 'include/vara/Solver/ConfigurationFactory.h')])

P('P24', 'Configurations store and reproduce every option',
  'A configuration returns for each option the value set last (texts that denote '
  'a boolean or an integer in their normal form), or nothing if it was never set; writing it and reading it again gives each option its value; '
  'iteration visits every option exactly once; malformed documents are reported.',
  'histories inputs', 'every sequence of settings, every document',
  'Histories and documents are unbounded.',
  [CFG, 'include/vara/Configuration/Configuration.h'],
  [('option mapping', 'include/vara/Configuration/Configuration.h'), ('JSON form', CFG)])

P('P25', 'Numbers keep their full range and sign from text to solver',
  'Integer values of features, constants of constraints and integer option values are '
  'read, stored, returned, printed and passed to the solver as signed 64-bit integers: '
  'nowhere on their way are they converted to a type that cannot hold all of their values. '
  'A text that is no 64-bit integer becomes the smallest or largest value, by its sign. '
  '(Step functions compute in floating point.)',
  'inputs', 'every number',
  'Tests use small numbers; truncation shows only beyond 32 bits.',
  [PAR, Z3C, CPH], [('integer conversions in the library', PAR)])

P('P26', 'Step functions compute and parse the function they denote',
  'A step function combines the given value and its constant with its operator '
  'in the order of its text, is printed in a form that is read as the same function, and '
  'malformed texts yield no step function.',
  'inputs', 'every step function and value',
  'Operators times orders times values are unbounded.',
  [STP, STPP], [('step function kinds', STP), ('parser', STPP)])

P('P27', 'Iterating a model visits every feature once, parents first',
  'Ordered iteration visits the root first, every feature exactly once and each '
  'feature before its descendants; features are compared consistently with that '
  'order; the children of a node are found through groups to the requested depth. The '
  'ranges of features, groups, children, constraints, locations and options that models, nodes '
  'and configurations give cover the whole collection.',
  'inputs', 'every tree',
  'Trees are unbounded in shape.',
  [FM, NODE, 'lib/Feature/Feature.cpp', 'include/vara/Feature/OrderedFeatureVector.h'],
  [('depth-first iteration', FM), ('child search', NODE), ('order of features', 'lib/Feature/Feature.cpp')])

P('P28', 'Source locations keep, compare and print all of their parts',
  'A source location returns the path, positions, category, member offset and '
  'revision range it was created with or last given; two are equal exactly if category, '
  'path, both positions and member offset are (revision ranges are not compared). '
  'Positions order by line, then column. The text shows the path, line and column of '
  'start and end, and the member offset, each exactly if present. A member offset splits '
  'at "::" into classes and, last, the member. A feature has exactly the locations added '
  'to it, in order, less those removed.',
  'inputs', 'every location',
  'Each part in each combination would need its own test.',
  [FSR], [('source ranges', FSR)])

P('P29', 'Building a model applies every request or yields no model',
  'A builder applies every requested feature, parent, relationship, location and '
  'constraint, features before edges and edges before groups; if any of these '
  'steps fails, no model is returned and nothing is left uncommitted.',
  'histories inputs', 'every sequence of builder calls',
  'The failing step may be any of the requests.',
  [BLD, 'lib/Feature/FeatureModelBuilder.cpp'], [('staged building', BLD)])

P('P30', 'No result of a failing operation is used unchecked',
  'Inside the library, the value of a result is used only where the result is known '
  'to be a success, and what a lookup, parser or builder returns is used only where it is '
  'known to be there. Where an operation is found to have failed, a caller that can report '
  'failure does.',
  'inputs fault_sequences', 'every call of a fallible operation in the library',
  'The failing branches are rarely reachable from the tests.',
  [PAR, Z3C, SFC, TX], [('result type', 'include/vara/Utils/Result.h')])

P('P31', 'The Python bindings forward every argument unchanged',
  'Every name of the Python module performs the library operation it is named after, on '
  'the given object with all arguments unchanged and in order, and yields its result; '
  'objects are created from all their arguments, enumerators have the value of the same '
  'name, omitted arguments have the defaults of the library, features that are handed out '
  'stay property of their model, and iterating an object keeps it alive.',
  'inputs', 'every call from Python',
  'The Python module is not built by the tests.',
  ['bindings/python'], [('bindings', 'bindings/python')])

P('P32', 'Features, groups, results and errors are what they were created as',
  'A feature or group is recognised (isa, cast) as exactly the kind it was created as, and '
  'a feature keeps the name, optionality, output string, values and step function it was '
  'created with; equal features have equal hashes. A result made of a value is true and yields the '
  'value, one made of an error is false and yields the error; each error prints a '
  'non-empty text of its own. A switch over kinds handles every kind or has a default.',
  'inputs', 'every feature, group, result and error',
  'Tests sample few kinds, values and errors.',
  [FEA, CON, 'include/vara/Utils/Result.h', 'include/vara/Feature/Error.h',
   'include/vara/Solver/Error.h'],
  [('kinds', FEA), ('results', 'include/vara/Utils/Result.h')])

P('P35', 'Written sample sets list exactly the selected options',
  'The written sample set has an entry of its own for each configuration; it lists, '
  'separated by commas, the output string of every option that the configuration selects (a value other than false) '
  'and that has an output string, numeric options followed by their value, and no '
  'other option.',
  'inputs', 'every model and every list of configurations',
  'Options with and without values and output strings combine without bound.',
  ['lib/Sampling/SampleSetWriter.cpp'],
  [('writing of sample sets', 'lib/Sampling/SampleSetWriter.cpp')])

P('P36', 'The text and the picture of a model show all of it',
  'The text of a feature (toString, dump) shows its name, whether it is optional, each of '
  'its source locations, its parent feature if it has one, and its direct child features; '
  'that of a numeric feature also the bounds of its range or every value of its list. '
  'Dumping a model writes the text of every feature. The DOT graph of a model starts at its '
  'root and has one node for each feature (with its name, constraints and locations) and '
  'each group (with its kind), one edge from each node to each of its children, which shows '
  'for a feature whether it is optional, and balanced braces.',
  'inputs', 'every model and every feature of it',
  'Models of any shape can be shown; tests look at the text of single features only.',
  ['lib/Feature/Feature.cpp', 'include/vara/Feature/FeatureModel.h'],
  [('texts of features', 'lib/Feature/Feature.cpp'),
   ('graphs of models', 'include/vara/Feature/FeatureModel.h')])

P('P37', 'Editing a model in one call makes exactly the requested edits',
  'The functions that edit a model in one call (addFeature, addFeatures, removeFeature, '
  'addRelationship, removeRelationship, setCommit) make exactly this edit with exactly the '
  'given arguments on the given model; addFeatures adds every given feature below its given '
  'parent. removeFeatures removes those given features that the model has, that are not its '
  'root, and that have no children or, when removing recursively, no other given feature '
  'below them, repeats this until nothing can be removed, and returns the features left. '
  'Features with children are only removed if recursive removal is requested explicitly.',
  'inputs', 'every model and every list of features (distinct)',
  'Lists of features and the shapes of the trees they are in are unbounded.',
  [TXC, TX], [('editing in one call', TXC)])

NA = {
    'P33': dict(
        title='Writing and reading a model again yields an equal model',
        statement='For every model, writing it and reading the written document '
        'yields a model with equal features, tree, groups and constraints.',
        over=['inputs'], qtext='every model',
        why='Models are unbounded.', files=[WRI, PAR], mech=[('writer', WRI), ('reader', PAR)],
        reason='Equality of the two models depends on the run-time values of the '
        'document between two independent programs (writer and reader, with an XML '
        'library in between); no sound static argument in reach relates them. The '
        'static halves are P14, P16 and P18.'),
    'P34': dict(
        title='Enumeration returns exactly the valid configurations',
        statement='The set of enumerated configurations equals the set of '
        'configurations that satisfy the model.',
        over=['inputs'], qtext='every model',
        why='Models are unbounded.', files=[Z3C], mech=[('solver', Z3C)],
        reason='Completeness rests on the decision procedure of the external solver; '
        'only the encoding (P20-P22) and the exclusion of found configurations (P23) '
        'can be decided from the source.'),
}

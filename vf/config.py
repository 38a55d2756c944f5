"""What every check is made of (see DESIGN.md)."""

TRUSTED = [
    'pysx itself (instrumentation, path enumeration, encoding of Python values; /verif/pysx)',
    'the SMT solvers z3 and cvc5',
    'CPython 3.12 executes the code that is not symbolic (the interpreter runs the real functions)',
]
ASSUMPTIONS = [
    'partial correctness: that loops end is not proved',
    'Python ints are mathematical integers (they are); floats are treated as reals where arithmetic on '
    'them is symbolic',
    'no other thread changes the objects while a function runs',
]

MAP = ['BTrees.OOBTree.BTree is a map whose iteration is in ascending key order (its interface as '
       'assumed in pysx/maps.py: Tree); persistence bookkeeping is not modelled',
       'facts about sums and cardinalities of finite families that the solver is given as axioms '
       '(pysx/maps.py: sum_term; listed in DESIGN.md)']
GROUP = ['a group is used through its contract (one map: has(k) = has(route(k), k)), which the group '
         'contracts themselves establish over the collections']
TM = ['the transaction manager is a stub: commit() either publishes the current state or is refused, '
      'abort() goes back to the last published one']

CXN = ['transaction and ZODB connections are stubs: begin() shows what was last published, commit() '
       'publishes the current state or is refused, abort() goes back']

CHECKS = {}


def check(prop, level='exploration', note='', contracts=False, trusted=(), assumptions=(),
          bounded=(), technique=None):
    CHECKS[prop] = {'level': level, 'note': note, 'contracts': contracts, 'trusted': list(trusted),
                    'assumptions': list(assumptions), 'bounded_functions': list(bounded),
                    'technique': technique or (
                        'contract-based deductive verification of the real functions (pysx: symbolic '
                        'execution to verification conditions, z3/cvc5)' if level == 'proof' else
                        'bounded stand-in: the contract executed on the real code' if not contracts else
                        'contract-based deductive verification (pysx, z3/cvc5) of the functions listed, '
                        'bounded stand-in for the rest')}


BOUNDED = 'Bounded: the contract is executed on the real code over generated cases; nothing is proved. '
ALSO = ' The same contract is also run, bounded, on the real code with its real dependencies.'

check('C01', 'proof', 'Every obligation about Collection, Group and Container read/write/has is '
      'discharged for all keys, values, contents and numbers of groups and collections.' + ALSO,
      True, MAP + GROUP)
check('C02', 'proof', 'Deletion is proved for all contents, numbers of groups and presence patterns.'
      + ALSO, True, MAP + GROUP)
check('C03', 'proof', 'The refinement to one map is proved operation by operation for any number of '
      'collections.' + ALSO, True, MAP + ['hashing of the key in get_group_index is a function of the '
                                          'key (hashlib)'])
check('C04', 'proof', 'Strict bounds, refusals and frames are proved for every operation from every '
      'content that satisfies the bound.' + ALSO, True, MAP)
check('C05', 'proof', 'Primality, minimality and sufficiency are proved over all integers with loop '
      'invariants; the layout of Group.new and Container.new for all arguments; sizes given position by '
      'position (`custom`) are bounded.' + ALSO, True,
      ['math.ceil and math.sqrt are exact (true below 2^53)'])
check('C06', 'proof', 'condense and resize are proved with loop invariants over any number of groups '
      'and objects, with a capacity error possible at every write.' + ALSO, True, MAP + GROUP + TM)
check('C07', 'proof', 'At every commit inside condense and resize the real Container.read is executed on '
      'the state published and proved to return what it returned before.' + ALSO, True, MAP + GROUP + TM)
check('C08', 'proof', 'Sizes, maxima, usage and status are proved equal to their definitions for any '
      'number of components.' + ALSO, True, MAP + GROUP)
check('C09', 'proof', 'minKey, maxKey, popitem, the order of a collection, and the merge of iterkeys and iteritems '
      'over any number of collections (an invariant over what remains to be yielded) are proved. Values in order (byValue, itervalues) are bounded.' + ALSO, True,
      MAP + ['the group is not changed while it is iterated over'],
      bounded=['Group.byValue', 'Group.itervalues'])
check('C10', 'proof', 'The operations of a connection are proved to publish one whole operation, or to '
      'leave the published state as it was, whatever the commit answers; a block of operations likewise. Threads sharing a manager '
      'are bounded.'
      + ALSO, True, MAP + GROUP + CXN)
check('C11', 'proof', 'Every operation of a connection begins from what was last published, and reads '
      'what was published, for every content and every position in the history.' + ALSO,
      True, MAP + GROUP + CXN)
check('C12', 'proof', 'Creation, loading and opening are proved to call ZODB, FileStorage and ZEO with '
      'the settings given, for all settings; what those do with them is only run, bounded.' + ALSO, True,
      ['ZODB.DB, FileStorage, MappingStorage, DemoStorage and ClientStorage behave as documented; their '
       'real signatures are used to bind the arguments'] + CXN)
check('C13', 'proof', 'Opening any number of databases, with any options given for each, and reading through '
      'their connections are proved.' + ALSO, True,
      ['asyncio.gather, get_event_loop and run_until_complete are stubs that run the coroutines one after '
       'the other',
       'the ** parameter of the constructor is given as one mapping of arbitrary content'])
check('C14', 'proof', 'Every operation of the legacy store is proved for any number of containers; the '
      'expansion with a loop invariant over any contents.' + ALSO, True,
      ['PersistentMapping is a map (pysx/contracts/legacy.py: Bucket, Outer)',
       'the transaction and ZODB classes extended by the legacy connection are stubs'])
check('C15', 'proof', 'Deletion, creation, discovery, reading the module file and the registry are proved over '
      'any contents of the directories and any names, on a contract of the file-system calls.' + ALSO, True,
      ['os, os.path, shutil and open() do what is documented, on two directories, the root and the '
       "module's (pysx/contracts/dbmodules.py: Disk); nothing else changes them meanwhile",
       'importlib executes the initialisation file in a module of its own',
       'the databases of the modules below one root have names of their own'])
RX = ['regular expressions are decided as languages (pysx/rx.py: derivatives of expressions), the '
      'patterns parsed by the standard library']
check('C20', 'proof', 'Accepting is proved over all strings; reading for every string of the documented '
      'form (lengths enumerated completely, characters symbolic); writing for all date-times.' + ALSO,
      True, RX + ['datetime.strptime matches the pattern that _strptime makes of the format; '
                  'datetime.astimezone, replace, isoformat and strftime do what is documented '
                  '(pysx/contracts/datetimes.py: Moment)'])
check('C21', 'proof', 'Both writers are proved for any number of days and seconds.' + ALSO, True)
check('C22', 'proof', 'Both gates and both loaders are proved over all addresses, given any scheme and '
      'host part.' + ALSO, True,
      RX + ['urllib.parse.urlparse gives the scheme and the host part, or raises ValueError; '
            'requests.get makes the requests'])
check('C23', 'proof', 'One call of a loader is proved for any state of the cache, any response and any '
      'failure; histories follow by induction over the calls.' + ALSO, True,
      RX + ['requests.get, Response.json, parse_link_header and prepend_base are stubs with arbitrary '
            'results and failures'])
check('C16', 'proof', 'Every access is proved from any set of registered functions, any derivation and '
      'any context; blocks of contexts on top of any stack.' + ALSO, True,
      ['registered functions return or raise whatever they like, and do not touch the property; '
       'the built-in property type calls the functions it was given'])
NESTED = ['nesting is finite: calls on members are replaced by the contract being proved, by induction '
          'on the depth']
check('C17', 'proof', 'The conversion is proved for values of every kind with any number of members, '
      'the selection for any set of properties.' + ALSO, True,
      NESTED + ['no two selected properties get the same name; the getters do not change the object; '
                'json.dumps encodes dictionaries, lists, strings, numbers, booleans and None'])
check('C18', 'proof', 'Validation is proved for values of any nesting, any declared types and any number '
      'of checks.' + ALSO, True,
      NESTED + ['a declared type other than list, tuple, set and NoneType is represented by one class '
                'standing for all of them'])
check('C25', 'proof', 'Unpacking and decoding are proved for data of every kind and any number of members, '
      'the dispatch and the registering of classes for any vocabulary.' + ALSO, True,
      NESTED + ['pyld expand gives any list of nodes, each with a non-empty list of types, or raises; '
                'json.loads gives any object or raises',
                'the properties of a class have different names; a class called with keywords keeps them '
                '(C27)'])
check('C26', 'proof', 'Both converters are proved for values of every kind with any number of members, '
      'reading for any reference and any failure of the fetch.' + ALSO, True,
      NESTED + ['the gates for URLs and account addresses are predicates over strings (C22 decides the '
                'first); fetching and decoding have arbitrary results and failures',
                'a link class called with keywords keeps them (C27)'])
check('C19', 'proof', 'Every property is proved, one by one, for values of every kind with any number of '
      'members.' + ALSO, True,
      NESTED + ['the validators are used by their contract (C18), the gates by theirs (C22), texts of dates '
                'and durations by theirs (C20, C21); no date is an address; fetching fails',
                'what the other properties hold is represented by one opaque object each'])
check('C27', 'proof', 'Every class is constructed from values of every kind, plain and as a class of the '
      'engine that create_package() gives.' + ALSO, True,
      ['linked properties are used by their contract (C19): what is set is kept, or refused',
       'an argument left out acts as its default, whatever the others (each is left out alone, and all '
       'together)'])
check('C24', 'exploration', 'Combining packages, looking a namespace up, linking what a mapping lists, and what '
      'happens to objects that are handed out (change_class, the wrappers), and engines of several packages are '
      'proved for packages, engines and objects of any size. Cloning the classes (metaprogramming on the type system of the '
      'interpreter) is bounded: the contract that the proofs use for it is executed on the real code over '
      'generated hierarchies, nothing about it is proved.', True,
      ['clone_classes is used by its contract (one clone of the same namespace for each class, in any '
       'order), which is checked bounded',
       'a namespace is not that of a class in one package and of a property in the other; names of '
       'properties differ',
       'classes of a package have names of their own, and no name is one of an attribute of the engine'],
      bounded=['jsonld.kamino.ClassCloner.clone_classes'])

"""Writes properties.jsonl and MANIFEST.json (run from /verif after changing a property)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ST, PA, IT, CO, RX, IN = ('oelint_parser/' + x for x in (
    'cls_stash.py', 'parser.py', 'cls_item.py', 'constants.py', 'rpl_regex.py', 'inlinerep.py'))

P = []


def p(id_, title, statement, over, text, why, files, mech, observe, note=None, na=None, state=()):
    P.append({'id': id_, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': observe, 'hook_needed': None},
              '_note': note, '_na': na})


p('C01', 'Results are reproducible across processes, platforms and runs',
  'Loading the same file contents in the same order and asking the same questions gives the same answers, in the same order, in every process: '
  'items and their attributes, link lists, expansions, file and package lists and the fingerprint never depend on hash seeds, directory enumeration order, '
  'the sizes in which the OS delivers file data, wall-clock time, or anything else in the environment.',
  ['inputs', 'configurations', 'histories'],
  'all layers, all hash seeds, all directory orders, all read chunkings, all clock values',
  'each test runs once, in one interpreter with one hash seed, on one file system order; differences between two environments never meet in one assertion',
  [ST, PA, IT, CO], [('ordering of query results by overall line number', 'Stash.Reduce'), ('sorted file lists', 'Stash.Get*'), ('fingerprint', 'Stash.AddFile')],
  ['GetItemsFor', 'GetLinksForFile', 'ExpandVar', 'FingerPrint', 'every list-valued query'],
  'Two or more interpreters with different hash seeds execute the same simulated world with different directory orders, chunkings and clocks; their transcripts must be equal.')

p('C02', 'Answers always reflect the current content of the stash',
  'Whatever queries were made before, a query answers as if it were the first one: after any sequence of loads, appended or removed items, and finalisations, '
  'every answer equals the answer of a stash that reached the same state without ever being asked anything. '
  'Changing a returned list or dictionary, or querying another stash in between, changes no later answer.',
  ['histories'],
  'all sequences of loads, finalisations, Append/Remove, queries and modifications of returned collections',
  'tests query once after loading; a stale or shared cached answer needs a query before and after a change of the stash',
  [ST, IT], [('memoised queries', 'functools.cache on Stash methods'), ('cache reset', 'Stash._clear_cached')],
  ['all queries of Stash'],
  'Seeded histories are executed twice, with and without the earlier queries; the answers must agree.',
  state=[('query caches', 'memoised answers of all queries', 'Stash')])

p('C03', 'A failed load leaves no trace and can be repeated',
  'When loading a file fails, because it or a file it pulls in cannot be read or memory or the process is interrupted, the error reaches the caller and '
  'the stash answers every query as if the load had never been attempted. Repeating the load once the cause is gone gives exactly the state that a load without failure gives.',
  ['fault_sequences', 'crash_points', 'histories'],
  'all I/O errors and interrupts at every system call or statement of a load, at every nesting depth, followed by retries',
  'no test makes a load fail; the failure point is one of thousands per load',
  [ST, PA], [('load bookkeeping', 'Stash.AddFile'), ('file reading', 'prepare_lines')],
  ['AddFile', 'every query of Stash', 'FingerPrint'],
  'Faults are injected at seeded opens/reads/statements of a load; afterwards the stash is compared with one that never saw the load and, after a retry, with one that loaded without faults.',
  state=[('seen files, seen classes, link map', 'what has been loaded', 'Stash')])

p('C04', 'Truncated files load and spare everything complete before the tear',
  'A file cut off at any byte can be loaded without an error. Every statement that was complete before the tear is reported exactly as in the complete file, '
  'and no other file of the layer is affected.',
  ['crash_points', 'inputs'],
  'all documents and all byte positions at which the writer crashed or the read ended',
  'tests load complete files only; tears inside continuations, bodies, comments and multi-byte characters are unreachable for them',
  [PA], [('chunking of lines into statements', 'prepare_lines, prepare_lines_subparser')],
  ['AddFile', 'GetItemsFor'],
  'A seeded tear is applied to one file of a seeded layer and the surviving statements are compared with a prediction made from their text.')

p('C05', 'Parsing is lossless and line numbers are exact',
  'For any file, in any state of completeness, the raw texts of its items in order of their in-file line are exactly the text of the file, without loss or duplication. '
  'The in-file line of an item is the line on which its raw text starts, and the overall line is that plus the offset under which the file was pulled in.',
  ['inputs', 'fault_sequences'],
  'all texts, well-formed or not, all read chunkings, all positions of regex time-outs',
  'tests check selected items of well-formed files',
  [PA, IT], [('raw text of items', 'prepare_lines_subparser, Item.RealRaw'), ('line counting', 'prepare_lines')],
  ['Item.RealRaw', 'Item.InFileLine', 'Item.Line'],
  'Seeded junk documents under short reads, torn reads and regex time-outs; the concatenated raw texts must be the delivered text.')

p('C06', 'Loading and querying always come to an end',
  'Loading any set of files terminates, also when files include or inherit each other in cycles, and every query terminates, also when variables refer to each other in cycles, '
  'with work bounded by the size of the input. If every regular expression is slow, each single operation is still cut off at the configured time limit.',
  ['inputs', 'configurations', 'fault_sequences'],
  'all include/inherit graphs, all variable reference graphs, all slow-downs of the regex engine',
  'tests contain a few acyclic layouts; a hang shows up as nothing else than a hang',
  [ST, PA, RX], [('cycle guard', 'Stash.AddFile'), ('seen variables', 'Stash.ExpandTerm'), ('time limit', 'RegexRpl')],
  ['AddFile', 'ExpandVar', 'ExpandTerm', 'RegexRpl.*'],
  'Cyclic worlds run under a deterministic step budget; slow worlds run on simulated time.')

p('C07', 'A regex time-out is contained to the statement it hits',
  'When regular expression operations run into the time limit, loading still completes, loses no text, and every statement that none of these operations was about is reported unchanged. '
  'The regex wrappers answer exactly like the engine while there is no time-out and with the given default when there is one; a time-out never escapes from them, not even while their results are consumed.',
  ['fault_sequences', 'inputs'],
  'all choices of timed-out operations during loads and queries, all patterns, texts, flags and defaults of the wrappers',
  'time-outs depend on real time and machine load; no test produces one at a chosen operation',
  [RX, PA], [('time-out to default', 'RegexRpl.search/split/match/sub/finditer')],
  ['AddFile', 'GetItemsFor', 'RegexRpl.*'],
  'The engine is replaced at the wrapper boundary by one whose seeded operations time out in simulated time.')

p('C08', 'Links connect exactly the files that pull each other in',
  'After finalising, a file is linked with the files it includes, requires or inherits, with the appends of a recipe and what those pull in, directly or through each other, and never with an unrelated file. '
  'Queries for a file return the items of the file and its links and nothing else, queries without links only its own; every file is listed once, whatever the load order and however often the stash is finalised.',
  ['inputs', 'histories', 'configurations'],
  'all include/inherit/append graphs, all load orders, all numbers of finalisations',
  'tests fix a handful of layouts with one load order',
  [ST], [('link map', 'Stash.AddFile'), ('transitive links', 'Stash.Finalize')],
  ['GetLinksForFile', 'GetItemsFor', 'Item.IncludedFrom', 'GetRecipes', 'GetLoneAppends'],
  'Links are compared with reachability in a reference graph. Known finding: links over more than one intermediate file can be missing (an existing test relies on one such gap).')

p('C09', 'Appends apply to exactly the recipes their name selects, in any load order',
  'An append applies to a recipe exactly if its name equals the recipe name, where % stands for any string and no other character is special. '
  'Whether the recipe or the append is loaded first makes no difference, and an append is reported as lone exactly if it applies to no loaded recipe.',
  ['inputs', 'histories'],
  'all sets of recipe and append names and all orders of loading and finalising them',
  'tests use a few plain names, mostly in one order',
  [ST], [('append matching', 'Stash.AddFile')], ['GetLinksForFile', 'GetLoneAppends', 'GetRecipes'],
  'Compared with an exact wildcard match over seeded names and load orders.')

p('C10', 'Items come in evaluation order',
  'The items of a recipe are returned in the order in which they take effect: the content of an included file or class directly behind the statement that pulls it in, '
  'and appends, each with the files it pulls in, behind the recipe in the order they were loaded. Overall line numbers increase strictly along this order, whether recipe or append was loaded first.',
  ['inputs', 'histories'],
  'all layers in which no file is pulled in twice, all load orders, read chunkings and directory orders',
  'tests check the order for single includes',
  [ST, PA], [('overall line numbers', 'get_items includeOffset'), ('placement of appends', 'Stash.AddFile')],
  ['GetItemsFor', 'Item.Line'],
  'The returned order is compared with the textual expansion of the recipe.')

p('C11', 'Variable expansion follows bitbake operator semantics',
  'Expanding the variables of a recipe gives the value that applying the operators in evaluation order gives: assignments, defaults, prefix and suffix operators and unsets as they occur, '
  'then override-style appends and prepends, then removals, with references to other variables replaced by their values, unless they are to be spared. Values for an override are kept apart under the complete name. '
  'The outcome depends neither on load order nor on earlier expansions or failed loads.',
  ['inputs', 'histories'],
  'all sequences of operators on all variables spread over recipe, includes, classes and appends',
  'tests expand a few variables with one or two operators each',
  [ST, IT], [('operator evaluation', 'Stash.ExpandVar'), ('reference expansion', 'Stash.ExpandTerm')],
  ['ExpandVar', 'ExpandTerm', 'GetValidPackageNames', 'GetValidNamedResources'],
  'Compared with a small reference evaluator over the statements in evaluation order. Known finding: a reference to a variable with several assignments uses the first one. '
  'Override-style modifiers survive an unset (an existing test relies on it), so the combination is left out.')

p('C12', 'Stashes on different threads do not influence each other',
  'Loads and queries on different stashes running concurrently on several threads give each stash the same items and answers as if it were alone. '
  'No query on one stash ever returns data of another one, and no interleaving raises an error.',
  ['schedules', 'inputs'],
  'all interleavings of loads and queries of two to four threads, each with its own stash, at statement and bytecode granularity',
  'no test uses threads; a race needs a switch at one of millions of points',
  [ST, PA, CO, RX], [('memoised queries keyed per stash', 'Stash'), ('process-wide constants', 'CONSTANTS')],
  ['AddFile', 'GetItemsFor', 'all queries'],
  'A seeded scheduler owns every thread switch; each stash is compared with a serial run.')

p('C13', 'Concurrent readers of one stash see consistent answers',
  'Any number of threads can query a finalised stash at the same time and each gets the answers a single reader gets. No interleaving raises an error or changes an answer asked afterwards.',
  ['schedules', 'histories'],
  'all interleavings of queries of two to four threads on one stash, with cold or warm caches, at statement and bytecode granularity',
  'no test uses threads',
  [ST, IT, CO], [('memoised queries', 'Stash'), ('lazily computed item values', 'Item')],
  ['all queries of Stash and Item'],
  'A seeded scheduler owns every thread switch; answers are compared with those of one reader.')

p('C14', 'The constants database follows its history of changes exactly',
  'After any sequence of adding, removing and overriding constants, and of loading layers that define machines and distributions, each lookup equals the fold of these changes over the initial database: '
  'added list entries follow the existing ones, removed ones are gone completely, overridden values are replaced, machines and distributions of a layer are known exactly once, and nothing else changes. '
  'Dictionaries handed in are neither modified nor used later on, databases do not influence each other, and a database file that is missing, unreadable, torn or invalid gives an empty database and no error.',
  ['histories', 'fault_sequences'],
  'all sequences of changes with all nested data (of the shape of the database), database files torn, unreadable or invalid at any byte',
  'tests apply one operation to a fresh database',
  [CO, ST], [('merge', 'Constants.AddConstants/RemoveConstants/OverrideConstants'), ('file', 'Constants.__load_db'), ('machines and distributions of a layer', 'Stash.AddDistroMachineFromLayer')],
  ['Constants.*'],
  'Compared with a small reference model over seeded histories with faults in the database files.')

p('C15', 'The fingerprint identifies what was loaded',
  'Two stashes that loaded the same content in the same order have the same fingerprint, in every process, no matter what was queried, finalised or loaded elsewhere in between. '
  'Stashes that differ in any statement, in the order of the files, or in the parsing options have different fingerprints.',
  ['inputs', 'histories', 'configurations'],
  'all layers, all single-character changes of a statement, all hash seeds, all interposed queries',
  'tests compare a few fixed stashes in one process',
  [ST, IT], [('fingerprint update', 'Stash.AddFile'), ('textual form of items', 'Item.__repr__')],
  ['FingerPrint'],
  'Mutated and identical layers are loaded in simulated worlds and in processes with other hash seeds.')

p('C16', 'Added and removed items and result lists behave as lists',
  'Items appended to a stash appear in all queries they match and removed ones in none; if removing several items fails because one is not there, the stash is unchanged. '
  'Result lists support all list operations, slicing, copying, extending, concatenation and reduction, with the content and type one expects, and never alter the stash or each other.',
  ['histories', 'inputs'],
  'all sequences of Append, Remove, Reduce and list operations with single items, lists, tuples, generators and result lists',
  'tests cover single calls with single arguments',
  [ST], [('list operations', 'Stash.StashList'), ('Append/Remove', 'Stash')], ['Append', 'Remove', 'StashList.*'],
  'Compared with plain Python lists over seeded histories.')

p('C17', 'A missing or vanishing include is skipped, and nothing else',
  'When an included, required or inherited file does not exist, or disappears between being found and being opened, loading goes on and the statement itself and everything else is reported as usual. '
  'The statement names the file it resolved to, or nothing; the file is searched next to the including file first and then from the root of the layer.',
  ['fault_sequences', 'inputs'],
  'all include graphs, all subsets of missing files, all moments between lookup and open at which a file vanishes or appears',
  'tests include files that exist, or never existed',
  [ST, PA], [('lookup', 'Stash.FindLocalOrLayer'), ('missing file', 'prepare_lines')],
  ['Include.FileIncluded', 'Inherit.FilePaths', 'GetItemsFor'],
  'The simulated file system removes or adds files at seeded operations; the outcome is compared with a model of the remaining files.')

p('C18', 'Inline file reads tolerate every I/O failure',
  'A value that reads a file through an inline expression expands to the content of that file, and to nothing if the file is missing, unreadable, a directory, not text, or fails while being read. '
  'No such failure reaches the caller, and it affects no other expansion.',
  ['fault_sequences', 'inputs'],
  'all I/O errors at the open or any read, all paths including variable references, all contents',
  'tests read an existing and a missing file',
  [ST], [('read_file', 'Stash.ExpandTerm')], ['ExpandTerm', 'ExpandVar'],
  'Errors are injected at the open and every read of the simulated file.')

p('C19', 'File lookups reflect the file system as it is',
  'Looking for a layer root, for a file next to another one or in its layer, and for the files around the sources of a recipe answers according to the file system at the time of the question, '
  'also if it answered differently before a file was created or deleted. The nearest enclosing layer is chosen, including the given directory itself.',
  ['histories', 'inputs'],
  'all directory trees and all sequences of creations, deletions and lookups',
  'tests query a static tree once',
  [ST], [('lookups', 'Stash.GetLayerRoot, FindLocalOrLayer, GetFiles')], ['GetLayerRoot', 'FindLocalOrLayer', 'GetFiles'],
  'Compared with a direct search of the simulated file system after every change.')

p('C20', 'A recipe is parsed the same way regardless of what else is in the stash',
  'The items, links and expansions of a recipe do not change when other, unrelated or related, recipes are loaded into the same stash before or after it, even if they share includes and classes with it. '
  'Machine and distribution names of its layer are recognised no matter which file of the layer was loaded first.',
  ['inputs', 'histories'],
  'all pairs of layers and load orders, with and without shared files',
  'tests load one recipe per stash',
  [ST, PA], [('per-file load', 'Stash.AddFile'), ('class cache', 'Stash seen classes')], ['GetItemsFor', 'ExpandVar', 'GetLinksForFile'],
  'A recipe is loaded alone and together with others, and its view compared. Known findings: files shared between recipes are loaded per recipe but filtered by name.')

p('C21', 'Inline expressions are replaced by the branch asked for',
  'Each inline expression with a known form is replaced by the value of its true branch, or of its false branch in negative mode, and any other one by a fixed marker; the original text stays available and nothing outside the expression changes. '
  'This holds for any number of expressions in a statement, in every kind of statement, and also when their evaluation times out, in which case the marker is used.',
  ['inputs', 'fault_sequences', 'configurations'],
  'all placements of known and unknown expressions, both modes, time-outs at every operation of the evaluation',
  'tests cover each form alone, without time-outs',
  [IN, PA], [('branch selection', 'inlinerep'), ('replacement', 'prepare_lines_subparser')], ['Item.Raw', 'Item.RealRaw', 'Item.InlineBlocks', 'Variable.VarValue'],
  'Seeded expressions in all statements with seeded time-outs, compared with a table of forms.')

p('C22', 'Statements are recognised independently of their surroundings',
  'Every statement yields exactly one item of the right kind whose attributes follow from the statement alone, wherever in a file it stands, whatever surrounds it, and however the file is delivered. '
  'The only context that matters is the override syntax, which once switched to the new style stays that way until the end of the file.',
  ['inputs'],
  'all sequences of all kinds of statements, all read chunkings',
  'tests parse each kind in one fixed surrounding',
  [PA, IT], [('recognition', 'get_items'), ('attributes', 'cls_item')], ['GetItemsFor', 'Item.*'],
  'Items are compared with predictions made from each statement alone, under short reads.')

p('C23', 'Recipe names and versions follow from the file name alone',
  'The name, base name and version of a recipe are functions of its file name: name before the first underscore, version behind it, base name without class prefixes and suffixes. '
  'Neither the directory nor any other state takes part: not what is loaded, in which order, whether a load failed, nor what was asked before.',
  ['inputs', 'histories'],
  'all file names and all histories of loads, failing loads and questions', 'tests use a few names and fresh stashes',
  [ST], [('guessing', 'Stash.GuessRecipeName/GuessBaseRecipeName/GuessRecipeVersion')], ['GuessRecipeName', 'GuessBaseRecipeName', 'GuessRecipeVersion'],
  'Asked at seeded points of simulated histories with failing loads and spoiled earlier answers, compared with a model of the file name.')

p('C24', 'Source URIs are split into scheme, location and options',
  'Splitting a source URI gives its scheme, its location with the mirrors known at that time replaced, and all its options with complete values (also if they contain further separators), '
  'for every URI, regardless of earlier changes of the constants and earlier answers, without ever raising an error.',
  ['inputs', 'histories', 'configurations'],
  'all URIs and all histories of changes to the mirrors', 'tests use a few URIs and the built-in mirrors',
  [ST, CO], [('URI parsing', 'Stash.GetScrComponents'), ('mirrors', 'Constants.MirrorsKnown')], ['GetScrComponents'],
  'Asked between seeded changes of the constants and spoiled earlier answers, compared with a model of the URI and the mirrors.')

p('C25', 'Override names are decomposed into class, machine and distribution parts',
  'The names of variables and functions are split into their base name and their overrides, in both override syntaxes. The distribution override is the first one the constants know as distribution at the time of asking, '
  'the class override the one naming a class, and the machine override the first of the others, whatever changed the constants or which layers were loaded before.',
  ['inputs', 'histories', 'configurations'],
  'all names, both syntaxes, all histories of changes to the constants and of loaded layers', 'tests use a few names with the built-in constants',
  [IT, CO], [('decomposition', 'Item.extract_sub, Variable/Function.Get*Entry')],
  ['Variable.GetMachineEntry', 'Variable.GetDistroEntry', 'Variable.GetClassOverride', 'Function.GetMachineEntry', 'Function.GetDistroEntry', 'Function.GetClassOverride', 'Variable.VarName', 'Function.FuncName'],
  'Items are asked again after each change of the constants in simulated histories, compared with a model of the name and the constants.')

p('C26', 'Recipe kinds and packages follow from content and constants',
  'Whether a recipe is an image or a package group, which packages and dynamic packages it provides, and which named resources it fetches, follows from the statements of the recipe and of all files linked to it that are in the stash when asked, '
  'and from the constants at that time; a pattern for dynamic packages that is no valid expression matches nothing. Statements of other recipes play no role, and neither do earlier questions, what their results were used for, or loads that failed.',
  ['inputs', 'histories', 'configurations'],
  'all statements about packages, sources and classes; all histories of loads, failing loads, added and removed items and changed constants', 'tests ask single recipes once',
  [ST, CO], [('recipe kinds', 'Stash.IsImage/IsPackageGroup'), ('packages', 'Stash.GetValidPackageNames/IsDynamicPackage/GetPackagesDynamic'), ('resources', 'Stash.GetValidNamedResources')],
  ['IsImage', 'IsPackageGroup', 'GetPackagesDynamic', 'IsDynamicPackage', 'GetValidPackageNames', 'GetValidNamedResources'],
  'Asked at seeded points of simulated histories with failing loads, compared with a model over the statements in the stash.')

p('C27', 'Ignored includes and classes are left out, and nothing else',
  'An include or class which the constants name as ignored when its recipe is loaded is not read, as if it did not exist. The statement that names it is still reported, and everything else, '
  'including other files named by the same statement, is loaded as usual. This follows every change of the constants between loads, and failing loads in between play no role.',
  ['inputs', 'histories', 'configurations'],
  'all include and inherit graphs, all sets of ignored names, all histories of changes, loads and failing loads', 'tests ignore single files with fixed constants',
  [ST, PA, CO], [('ignored files', 'get_items: include and inherit'), ('ignore lists', 'Constants')], ['GetItemsFor', 'Include', 'Inherit', 'InheritGlobal'],
  'Each load is compared with a load from a simulated file system without the ignored files.')

p('C28', 'Whatever files contain, loading and asking give answers instead of errors',
  'Any file that is text can be loaded, however its content was damaged (bits flipped, blocks lost, zeroed, repeated, exchanged or written to the wrong place, foreign text inserted), and every query and every accessor of every item '
  'then ends with an answer of its documented type instead of an error. A damaged file that is no valid text any more makes its load fail with a decoding error, and leaves no items behind.',
  ['inputs', 'fault_sequences'],
  'all byte contents of all files of a layer, all queries, all accessors of items', 'tests load well-formed files; no test damages one, and none asks every question for odd statements',
  [ST, PA, IT, IN], [('statement recognition', 'get_items and the extractors of parser.py'), ('accessors', 'properties and methods of cls_item.py'), ('expansion', 'Stash.ExpandTerm/ExpandVar')],
  ['AddFile', 'every query of Stash', 'every property and method of items'],
  'Seeded damage of the simulated disk, then all questions and all accessors; only decoding errors that a damaged file explains are allowed.')

p('C29', 'Loading and asking only read, and leave nothing behind in the process',
  'Loading and asking open files for reading only and never create, change or remove any. Every stream they open is closed when the call returns or raises, wherever it failed. The working directory, environment, locale, limits, signal and exit handlers, '
  'warning filters, random numbers, threads and other process-wide state are as before the call, and so are the arguments of the caller. A quiet stash prints nothing; another one prints one line for each file it parses, in order. '
  'Files can be given by relative names from any working directory, with the same result as by their absolute names.',
  ['fault_sequences', 'histories', 'configurations', 'crash_points'],
  'all histories of loads and questions, all failing calls and interruptions, all working directories and spellings of paths', 'tests look at answers only, and no test makes a call fail half way',
  [ST, PA, CO], [('reading files', 'prepare_lines, Stash.ExpandTerm'), ('absolute names', 'Stash.AddFile'), ('output', 'Stash.AddFile')],
  ['open files and process state after every call', 'standard output', 'AddFile', 'all queries'],
  'Every stream, attempt to write and process-wide setting is watched from outside at every call of seeded histories with faults.')


def main():
    with open(os.path.join(HERE, 'dst', 'config.json')) as f:
        cfg = json.load(f)
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for e in P:
            e = dict(e)
            note, why = e.pop('_note'), e.pop('_na')
            f.write(json.dumps(e, ensure_ascii=False) + '\n')
            if why:
                na.append({'property': e['id'], 'reason': why})
            elif e['id'] in cfg:
                checks.append({
                    'property': e['id'],
                    'quick_cmd': './check %s quick' % e['id'],
                    'thorough_cmd': './check %s thorough' % e['id'],
                    'technique': 'deterministic simulation with fault injection: seeded search',
                    'level': 'exploration',
                    'level_note': note + ' Seeded search, not exhaustive; trusts the simulated OS and scheduler of /verif/dst and CPython.'})
            else:
                na.append({'property': e['id'], 'reason': 'no check built yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na,
                   'notes': 'No hooks in /repo: every seam is installed from outside (see DESIGN.md). '
                            'Replay a violation with: ./check --replay FILE'}, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code only because JSON lines are hard to edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["src/gaspra/"+f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
I=["inputs"]
p("C01","Compact integers round-trip",
 "Every integer from 0 to 2**64-1 written in the variable-length integer format, followed by any other bytes, is read back as the same integer and leaves exactly the bytes that followed it.",
 I,"all integers in the format's range, all following bytes","Tests sample a list of values around some thresholds; the range has 2**64 values and every length class has its own formula.",
 ["serialize.py"],[("length classes of the writer","serialize.vserialize_int"),("length classes of the reader","serialize.vdeserialize_int"),("fixed width variant","serialize.serialize_int / deserialize_int")],["return values"])
p("C02","Truncated or out-of-range input is rejected, not misread",
 "Reading an integer or a changeset from a byte string that ends in the middle of an item raises an error: no returned value is computed from a part of the byte string that is not there. Integers outside the range of the format are refused when they are written.",
 I,"all byte strings cut anywhere, all integers outside the range","Tests cut a few encodings at one place; slicing past the end of bytes silently yields fewer bytes, so a missing length check is invisible on complete input.",
 ["serialize.py"],[("length checks before each slice","serialize.vdeserialize_int, deserialize_int, deserialize_changeset")],["raised exceptions"])
p("C03","Stored changesets read back unchanged",
 "A changeset (any sequence of copied ranges and literal byte strings, adjacent items of the same sort included) that is serialized and deserialized yields the same items in the same order, apart from empty ones, with no bytes left over.",
 I,"all sequences of ranges and byte strings of any length","Tests use a handful of changesets; writer and reader have to agree on an alternation of item sorts with padding for every possible order of items.",
 ["serialize.py"],[("alternation flag and padding of the writer","serialize.serialize_changeset"),("alternation flag of the reader","serialize.deserialize_changeset")],["yielded items"])
p("C04","A diff loses, repeats and reorders nothing",
 "For any two sequences, the unchanged parts and the deleted parts of their diff, in order, are exactly the original sequence, and the unchanged parts and the inserted parts, in order, are exactly the modified sequence. This holds whatever matches the search for common parts selects, provided those matches are genuine.",
 I,"all pairs of sequences of tokens and all choices of common parts","Tests check fixed pairs of short strings; offsets have to compose correctly at every depth of the subdivision.",
 ["changesets.py"],[("subdivision around a match","changesets.find_changeset"),("streams of the change tree","changesets.Changeset / ChangesetLeaf"),("diff entry point","changesets.diff_token_sequences")],["items of the diff stream"])
p("C05","Applying a patch rebuilds its target in both directions",
 "The forward patch taken from the changeset of two sequences turns the first into the second, and the reverse patch turns the second into the first, for strings, bytes and token tuples alike; empty parts make no difference.",
 I,"all pairs of sequences, both directions, all three sequence types","Tests apply patches of a few strings; the reverse direction and the tuple type are hardly reached.",
 ["changesets.py"],[("direction stripping","changesets.strip_forward / strip_reverse"),("patching","changesets.apply, apply_forward, apply_reverse, old_apply_*, join_changes")],["return values"])
p("C06","Conflict alternatives belong to the right branch",
 "In every conflict reported by a merge, the first alternative contains nothing that only the second branch introduced, and the second alternative nothing that only the first branch introduced. The same holds for conflicts that are split or joined after the merge proper.",
 I,"all triples of parent and branches","Tests compare a few merges with expected output; attribution has to be right for every overlap of changes and copies.",
 ["merge.py"],[("step of the merge","merge._merge, process_fragments"),("rest of a branch","merge.flush_remaining"),("joining and re-splitting of conflicts","merge.consolidate, consolidate_conflicts, consolidate_all")],["items of merge_token_sequence()"])
p("C07","A merge drops and duplicates nothing",
 "While two branches are merged, each piece of text that a branch inserted goes exactly once into the result (or into that branch's alternative of a conflict), an insertion made by both alike goes in once, and both branches always advance over the same amount of the parent. Text that one branch deleted and the other kept unchanged does not reappear outside conflicts, and text that both kept is output once.",
 I,"all triples of parent and branches, any number of changes","Tests cover a few dozen alignments of changes; the bookkeeping of partly used fragments has to be right for all relative lengths.",
 ["merge.py"],[("step of the merge and its leftovers","merge._merge, process_fragments, copy_copy, copy_change, change_change, pending_conflict"),("splitting","merge.split_copy_fragment, split_change_fragment"),("consolidation","merge.consolidate_conflicts, consolidate_all")],["items of merge_token_sequence()"],
 [("fragments0/fragments1","what remains of each branch, as stacks","merge._merge")])
p("C08","Results are of the same kind as the inputs",
 "Diffing, patching and merging strings yields only strings, bytes only bytes, and token tuples only token tuples, inside changes and conflicts too, including the empty ones; no operation mixes the kinds or fails because of them.",
 I,"all inputs of each of the three kinds","Tests use mostly strings; the empty value of the wrong kind shows up only where a branch has nothing to say.",
 ["merge.py","changesets.py","common.py"],[("choice of the joiner","common.get_joiner, changesets.join_changes"),("empty sides of conflicts","merge.pending_conflict, flush_remaining, consolidate")],["types of yielded items"])
p("C09","Inputs are never modified",
 "No search, diff, patch, merge, serialization or rendering call modifies the sequences, collections or objects it is given, and searching a built automaton does not modify the automaton.",
 I,"all calls of the public functions with mutable arguments","Tests do not compare arguments before and after the calls.",
 ["suffix_automaton.py","multiple_strings.py","wrappers.py","changesets.py","merge.py","diff_to_lines.py","markup.py","serialize.py","tokenizers.py"],[("functions only read their parameters","whole modules")],["arguments after the call"])
p("C10","Calls are independent of earlier calls",
 "The result of a library call depends only on its arguments and the objects it is called on: no call leaves anything behind in default arguments, module or class level tables, caches or other shared state that a later unrelated call could see. (The database connection that all storage shares unless it is given its own is meant to be shared.)",
 ["histories"],"all sequences of calls in one process","Tests run each call once or in an order that happens to work.",
 ["tokenizers.py","merge_tool.py","markup.py","versions.py","memory_tree.py","suffix_automaton.py"],[("per-instance state","constructors and default factories"),("markup tables","markup module level constants")],["results of later calls"])
p("C11","Results are reproducible",
 "Search, diff, merge, line view, tokenizers, serialization and version storage give the same result for the same input in every process: nothing depends on hash randomization, set order, object identity, time, randomness or the environment.",
 I,"all inputs, all hash seeds and environments","Tests run once with one hash seed.",
 ["suffix_automaton.py","multiple_strings.py","changesets.py","merge.py","diff_to_lines.py","tokenizers.py","serialize.py","versions.py","memory_tree.py"],[("no order-sensitive use of sets, no ambient input","whole modules")],["results"])
p("C12","Library calls touch nothing outside the process",
 "The search, diff, merge, line view, tokenizer, serialization and in-memory version functions open no files, print nothing, start nothing and change no process-wide settings; importing the package does nothing of the kind either.",
 I,"all library calls on all paths","Tests do not observe such effects.",
 ["suffix_automaton.py","multiple_strings.py","wrappers.py","changesets.py","merge.py","diff_to_lines.py","tokenizers.py","serialize.py","versions.py","memory_tree.py","manifest.py","common.py"],[("no effectful calls","whole modules")],["files, standard output, process state"])
p("C13","Input size does not drive recursion",
 "The depth of nested calls does not grow with the length of the input, so inputs much longer than the interpreter's recursion limit are handled.",
 I,"all inputs, of any length","Tests use short inputs, far below the recursion limit.",
 ["suffix_automaton.py","multiple_strings.py","changesets.py","merge.py","diff_to_lines.py","versions.py","memory_tree.py"],[("iterative traversals","suffix_automaton.follow_reverse_links, multiple_strings.find_lcs")],["RecursionError"])
p("C14","Falsy tags, tokens and contents are ordinary values",
 "Tags such as 0 or the empty string, tokens such as 0, and empty contents behave like any other tag, token or contents: whether something is absent is never decided by the truth value of a tag, token or stored contents.",
 I,"all tags, tokens and contents","Tests use truthy tags and nearly always nonempty contents.",
 ["versions.py","memory_tree.py","db_tree.py","db_collections.py","manifest.py","suffix_automaton.py","multiple_strings.py","tokenizers.py"],[("comparisons with None","whole modules")],["results for falsy values"])
p("C15","Each stored delta leads from its recorded parent to its version",
 "When a version is added, every delta that is stored was computed from the full contents of exactly the version recorded as the parent to the full contents of the version it is stored for. A version's full copy is dropped only once its delta is stored, and stored data that is still needed to compute a delta is not overwritten before.",
 ["histories"],"all histories of additions with any tree of versions","Tests build chains of a few versions with one storage; the split case depends on the shape of the whole history.",
 ["versions.py"],[("adding an edge","versions.Versions.add, _add_edge"),("delta computation","versions.Versions._make_changeset")],["contents of the delta collection"],
 [("head_version","full contents of versions without a delta","versions.Versions"),("diffs","delta per version","versions.Versions")])
p("C16","A failed addition leaves earlier versions intact",
 "If adding a version fails because its contents cannot be tokenized, compared or serialized, every version added before is still stored and linked exactly as before or completely moved: no stored version has lost its full copy without having a delta, and no delta is stored without the matching link.",
 ["fault_sequences","histories"],"all histories, failure at any computation during the addition","No test makes an addition fail.",
 ["versions.py"],[("order of computing and storing","versions.Versions.add, _add_edge")],["stored collections after the failure"])
p("C17","Re-parenting keeps the in-memory tree consistent",
 "After a version is given a new parent, it is a child of the new parent and of no other, its recorded parent is the new one, and heights and sizes are recomputed from the children for the new and the former parent and every ancestor of them. The path to a version lists its ancestors from the root down to itself, and an unknown version has no path. The split point below a version is the middle of the way down to a leaf through the highest child, the most recently added one among equally high ones.",
 ["histories"],"all trees and all re-parentings","Tests check a few fixed shapes.",
 ["memory_tree.py"],[("re-parenting","memory_tree.MemoryTree.change_parent, _update_metrics"),("paths","memory_tree.MemoryTree.path_to")],["tree nodes","returned paths"])
p("C18","Storage back ends and tokenizers are interchangeable",
 "Every tree, collection and tokenizer implementation offers every operation that the version store and the other callers use on it, and accepts the arguments they pass.",
 ["configurations"],"all combinations of tree, collections and tokenizer","Tests combine some back ends and call only some of the operations on each.",
 ["tree.py","memory_tree.py","db_tree.py","db_collections.py","versions.py","tokenizers.py"],[("protocols","tree.Tree, tokenizers.Tokenizer"),("uses","versions.Versions")],["AttributeError, TypeError"])
p("C19","Database changes are committed or rolled back",
 "Every operation of a database collection or the database tree either succeeds and all its changes are committed together, visible to other connections, or fails and the database is as it was before; whichever way it ends it leaves no transaction open. Operations that only read change nothing, and re-parenting with an unknown version changes nothing. (Creating the storage, which empties it, is not one transaction.)",
 ["histories","fault_sequences"],"all database operations, failure at any statement","Tests use one connection, on which uncommitted changes are visible.",
 ["db_collections.py","db_tree.py"],[("connection used as a context manager","every method that executes SQL")],["database seen by another connection"])
p("C20","Tags and contents never become part of SQL text",
 "Tags, contents and row numbers reach the database only as bound parameters, in the number each statement expects; the text of a statement is made only of the program's constants and the table name chosen by the caller.",
 I,"all tags and contents","Tests use harmless tags.",
 ["db_collections.py","db_tree.py","db_tree_sql.py"],[("parameter binding","every execute() call")],["executed statements"])
p("C21","A database collection behaves like a dictionary",
 "Storing under a tag makes that tag, and no other, read back as exactly the stored contents, replacing earlier contents; reading or deleting an unknown tag raises KeyError; membership, iteration and length reflect exactly the stored tags.",
 ["inputs","histories"],"all tags, contents and sequences of operations","Tests use a few tags and contents.",
 ["db_collections.py"],[("statements and result handling","db_collections.DBCollection")],["results of the mapping operations"])
p("C22","Tokenizers reproduce the text exactly",
 "Decoding what a tokenizer produced for a text gives back exactly that text, for strings and for bytes, whatever line ends or symbols the text contains; decoding the tokens in two parts gives the two parts of the text.",
 I,"all texts (valid UTF-8 where the tokenizer works on characters)","Tests use a few sample texts.",
 ["tokenizers.py"],[("splitting and joining","NullTokenizer, CharTokenizer, LineTokenizer, SymbolTokenizer"),("total symbol pattern","tokenizers.SYMBOLS")],["decode(encode(x))"])
p("C23","Token numbers keep their meaning",
 "A number that a line or symbol tokenizer has given to a piece of text stays that text's number for the lifetime of the tokenizer, different pieces have different numbers, and no empty piece is ever numbered, so that sequences encoded earlier still decode to the same text after more text has been encoded.",
 ["histories"],"all sequences of encode and decode calls on one tokenizer","Tests encode one or two texts per tokenizer.",
 ["tokenizers.py"],[("numbering","tokenizers.generic_encode, line_encode_strings"),("splitting","LineTokenizer.encode, SymbolTokenizer.encode")],["decode results"])
p("C24","One tokenizer never mixes text and bytes",
 "Once a tokenizer has encoded a string it refuses bytes, and once it has encoded bytes it refuses strings, before anything else about it changes; what was encoded from bytes is decoded to bytes and what was encoded from a string to a string.",
 ["histories"],"all sequences of encode and decode calls on one tokenizer","Tests mix the types once.",
 ["tokenizers.py"],[("type guard","encode() of each tokenizer")],["raised exceptions","type of decoded contents"])
p("C25","Separators in a multi-way search match nothing else",
 "When several sequences are searched for their longest common part, the separators put between them are all different from each other and from every token of any input, and every sequence is followed by its own separator, so that no match spans two sequences; the positions reported are relative to the sequence they are in.",
 I,"all sets of sequences of hashable tokens","Tests use strings and small integers as tokens.",
 ["multiple_strings.py","types.py"],[("separator type","types.Separator"),("concatenation","multiple_strings.concatenate_strings"),("offsets","multiple_strings.get_string_offsets")],["results of find_lcs()"])
p("C26","Manifests store every file against its counterpart in the base",
 "Adding a manifest stores each named file that is not stored yet, with its own contents, on top of the version that the base manifest names for the same file name if there is one, then the manifest itself on top of the base manifest; files added or missing in either manifest are no problem. Reading a manifest gives back the same names and tags.",
 ["inputs","histories"],"all manifests and base manifests","Tests use one or two manifests with the same names.",
 ["manifest.py"],[("adding","manifest.add_manifest"),("encoding","manifest.manifest_to_doc / doc_to_manifest")],["calls on the version store"])
p("C27","Displayed text is escaped exactly once and completely",
 "Every piece of text taken from the inputs, and every file name, passes through the writer's escaping exactly once before it is displayed, while the program's own markup is not escaped; both alternatives of a change are displayed, into-side first, and markers of the kind that git uses name the files that their sides come from.",
 ["inputs","configurations"],"all inputs, both writers, all option combinations","Tests render a few fragments with one markup table.",
 ["markup.py","merge_tool.py"],[("rendering","markup.markup_changes, markup_stream, markup_change_item, show_header"),("names","merge_tool.get_markup_function")],["calls of the writer"])
p("C28","Inputs are read before the output file is touched",
 "The command line tools read all input files completely before they open the output file, and close every file they opened on every path, including when rendering fails.",
 ["fault_sequences","configurations"],"all option combinations, failure at any step","There are no tests of the command line tools.",
 ["merge_tool.py","markup.py"],[("order of the steps","merge_tool._merge, diff_cli"),("context managers","markup.file_writer, merge_tool.get_text")],["order of open/close"])
p("C29","Every option combination works",
 "The command line tools run to completion for every combination of their options: every option that is consulted is declared for that tool, every branch calls existing functions with acceptable arguments, and the tokenizer, line view and markup chosen are the ones the options name; the files compared or merged are those named, the diffs shown before a merge are those of each branch against the parent.",
 ["configurations"],"all combinations of command line options of the three tools","There are no tests of the command line tools.",
 ["merge_tool.py","markup.py","torture_test.py"],[("argument parsers","merge_tool.get_*_arguments"),("selection","merge_tool.make_tokenizer, get_markup_style, get_writer")],["exit without a crash"])
p("C30","Files are read and written without altering the text",
 "The command line tools read their inputs and write their output file without translating line ends or depending on the locale's encoding, and the console writer neither wraps nor replaces text.",
 ["inputs","configurations"],"all texts, all platforms","There are no tests of the command line tools.",
 ["merge_tool.py","markup.py"],[("open() arguments","merge_tool.get_text, markup.file_writer"),("console arguments","markup.console_writer")],["bytes written"])
p("C31","Reported common parts are consistently recorded",
 "The pairwise search reports positions and length of one and the same match: the length grows only by tokens that were actually matched, position and length always refer to the same moment of the scan, they lie inside the searched sequence, a later match replaces an earlier one only if it is longer, and without a match all three are zero.",
 I,"all automata and searched sequences","Tests compare a few strings.",
 ["suffix_automaton.py","wrappers.py"],[("scan","suffix_automaton.find_lcs")],["returned triple"])
p("C32","The line view keeps every character of both sides",
 "Converting a diff to the line-oriented view keeps, on the first side, all unchanged and inserted text in order and, on the second side, all unchanged and deleted text in order; nothing is added except a final line end, and every piece but the last consists of whole lines.",
 I,"all diff streams","Tests convert a few fixed streams.",
 ["diff_to_lines.py"],[("accumulation","diff_to_lines.DiffAccumulator, handle_fragment, to_line_diff"),("joining","diff_to_lines.consolidate")],["items of the line view"])
p("C33","Retrieval applies the deltas along the path in order",
 "A version is rebuilt from the full contents of the first version on its path by applying, one after the other, exactly the deltas of the remaining versions on the path in path order; asking for an unknown version gives None.",
 ["histories"],"all histories and all versions","Tests retrieve versions from short chains.",
 ["versions.py"],[("retrieval","versions.Versions.get, _retrieve_using_path")],["returned contents"])
p("C34","Re-parenting in the database tree updates the right rows",
 "When a version is given a new parent in the database tree, the former parent's link to it is cleared, its own row points to the new parent by name and row, the new parent's row gets the link to it, and the metrics of both parents and all their ancestors are recomputed from their children. The path to a version is listed from the root down, and an unknown version has no path; membership and base versions are those recorded when versions were added. The split point below a version is the one the in-memory tree would choose: the middle of the way down to a leaf through the highest child, the most recently added one among equally high ones.",
 ["histories"],"all trees and re-parentings","Tests check a few fixed shapes.",
 ["db_tree.py","db_tree_sql.py"],[("re-parenting","db_tree.DBTree.change_parent, _new_update_metrics"),("paths","db_tree.DBTree.path_to")],["executed statements and parameters"])
# honest not-applicable
p("C35","The common part found is the longest",
 "The pairwise search reports a longest common contiguous part of the two sequences, and the multi-way search a longest part common to all of them.",
 I,"all sequences","Tests compare with brute force on short strings.",
 ["suffix_automaton.py","multiple_strings.py"],[("automaton","suffix_automaton.build, find_lcs")],["returned length"])
p("C36","The automaton recognizes exactly the suffixes",
 "The automaton built from a sequence accepts exactly the suffixes of that sequence and its paths spell exactly its contiguous parts.",
 I,"all sequences","Tests enumerate suffixes of a few strings.",
 ["suffix_automaton.py"],[("construction","suffix_automaton.extend, insert_node")],["accepted sequences"])
p("C37","Every occurrence is found",
 "Searching for a sequence reports all positions where it occurs, each once, in increasing order.",
 I,"all pairs of sequences","Tests search a few strings.",
 ["suffix_automaton.py","wrappers.py"],[("occurrence lists","suffix_automaton.find_substring_all")],["returned positions"])
p("C38","Search is linear in the input",
 "Building the automaton and searching take time proportional to the length of the sequences.",
 I,"all sequences","Tests do not measure.",
 ["suffix_automaton.py"],[("amortized construction","suffix_automaton.extend")],["run time"])
p("C39","Paths to versions stay short",
 "The number of deltas needed to rebuild a version grows only logarithmically with the length of a linear history.",
 ["histories"],"all linear histories","Tests check a few lengths.",
 ["versions.py","memory_tree.py","db_tree.py"],[("split choice","get_split")],["path length"])
p("C40","A crash never loses a committed version",
 "If the process is killed at any point while a version is being added to the database store, all versions added before can still be retrieved.",
 ["crash_points"],"all crash points","Tests do not crash.",
 ["versions.py","db_collections.py","db_tree.py"],[("transactions","with connection")],["database after the crash"])
with open("/verif/properties.jsonl","w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
assert all(len(r["title"])<=80 for r in P)
print(len(P))

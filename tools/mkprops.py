#!/usr/bin/env python3
"""Writes properties.jsonl (one place to keep the wording in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

p('C01', 'sort writes an ordered permutation of its input',
  "For every set of input files with compatible headers and every key specification, `cdx sort` (and the library sort) writes the header once followed by exactly the input lines, each as often as it occurred and unchanged, in non-decreasing key order. The result does not depend on how the work is split: in-memory buffer size, number of temporary files and fan-in of the merges change nothing but the order of lines whose keys are equal. With --unique exactly one line of each class of equal keys is written; --merge of already sorted files gives the same ordering guarantee, and --check accepts exactly the files that are in order.",
  ['inputs', 'configurations'], 'all files, all key specifications, all buffer sizes and merge fan-ins',
  'The tests sort a handful of tiny files that always fit in one buffer; neither spilling to temporary files, nor multi-level merges, nor ties are ever exercised.',
  ['src/sort.rs', 'src/comp.rs', 'src/bin/cdx/sort_main.rs'],
  [('Sorter::add / do_sort / write_tmp / merge_tmp', 'src/sort.rs'), ('merge_t / merge_t2 heap merge', 'src/sort.rs'), ('LineCompList::comp_items', 'src/comp.rs')],
  ['stdout of cdx sort', 'cdx::sort::SortConfig'],)
p('C02', 'multi-key comparison is lexicographic with per-key reversal',
  "Comparing two lines with a list of keys gives the result of the first key that does not compare equal, and Equal when all keys do; a key marked reverse gives exactly the opposite ordering, and nothing else about it changes. The result is antisymmetric and transitive whenever the single-key comparators are, and a line is `equal` to another exactly when the comparison says Equal.",
  ['inputs', 'configurations'], 'all pairs of lines and all lists of keys',
  'Tests compare a few pairs with one or two keys; a fault in the reversal or in the tie-break only shows for particular key combinations.',
  ['src/comp.rs'], [('LineCompList::comp_cols / comp_cols_n / comp_self_cols / equal_cols', 'src/comp.rs'), ('LineComp reverse handling', 'src/comp.rs')],
  ['cdx::comp::LineCompList', 'cdx sort -k', 'cdx uniq', 'cdx join'])
p('C03', 'cached sort keys never change a comparison',
  "The sort's cached 8-byte key prefix is an accelerator only: for every pair of lines and every comparator, comparing through the cache gives exactly the ordering that comparing the full keys gives. In particular a smaller cache means a smaller key, and two items are declared equal from the cache alone only if their full keys compare equal.",
  ['inputs', 'configurations'], 'all pairs of byte strings, all comparators, reversed or not',
  'A wrong cache only shows for keys that agree or differ in particular byte positions (long common prefixes, embedded NULs, -0, multi-digit numbers), which the tests do not contain.',
  ['src/comp.rs', 'src/num.rs'], [('Compare::fill_cache / Item::complete / LineCompList::comp_items', 'src/comp.rs'), ('make_array', 'src/comp.rs'), ('ulp_to_ulong', 'src/num.rs')],
  ['cdx::comp::{Item, Compare, LineCompList}'])
p('C04', 'numeric keys order by exact decimal value',
  "The `num` comparator orders two decimal numerals by their exact mathematical value for any number of digits: leading zeros, trailing zeros of the fraction, thousands commas and the sign of zero do not matter, and no digit is ever dropped because the number is too long for a machine type.",
  ['inputs'], 'all pairs of decimal numerals of any length, with optional sign, leading blanks, commas and fraction',
  'Tests compare under ten pairs; value bugs hide in fractions, zeros and mixed signs.',
  ['src/comp.rs'], [('num_cmp_signed / num_cmp_unsigned / frac_cmp / skip_comma*', 'src/comp.rs')], ['cdx::comp::CompMaker "num"', 'cdx sort -k1,num'])
p('C05', 'binary search returns exactly the matching lines',
  "On a file whose lines are in order for the given keys, `cdx binsearch` (and lower_bound, upper_bound, equal_range) returns exactly the maximal contiguous block of lines that compare equal to the pattern, whether or not the last line ends in a newline, plus exactly the requested number of context lines before and after, clipped to the file. The header line is never searched or counted, and the search terminates on every input.",
  ['inputs'], 'all sorted files (any number and length of lines, including empty lines), all patterns, all context settings',
  'Eight tests over one small file; off-by-one faults at newline positions, empty lines and file ends are not sampled.',
  ['src/binsearch.rs', 'src/bin/cdx/binsearch_main.rs'], [('find_start / find_end / find_prev', 'src/binsearch.rs'), ('lower_bound_n / upper_bound_n / equal_range_n', 'src/binsearch.rs')],
  ['cdx::binsearch', 'stdout of cdx binsearch'])
p('C06', 'splitting a line into columns loses nothing',
  "For every line (text with no newline but at its end) and delimiter other than newline, the columns the library reports are exactly the text between consecutive delimiters: joining them with the delimiter gives the line back, there is one more column than there are delimiters, and asking for a column past the last gives an empty value rather than an error or another column's text. Asking for a single column of a raw line gives the same bytes as splitting the whole line.",
  ['inputs'], 'all byte strings, all delimiter bytes, all column numbers',
  'Tests split two or three fixed lines.',
  ['src/util.rs', 'src/text.rs', 'src/comp.rs', 'src/column.rs'], [('split_plain / TextLine::split', 'src/util.rs'), ('get_col', 'src/column.rs, src/comp.rs'), ('FakeSlice', 'src/util.rs')],
  ['cdx::util::TextLine', 'cdx::column::get_col', 'every tool'])
p('C07', 'escaped text reads back as what was written',
  "Text written in the backslash-escaped or quoted file styles reads back as exactly the bytes that were written, for every byte string, including delimiters, newlines, carriage returns, quotes and backslashes (with a delimiter the style can express: not the quote or backslash itself, and not the letters n, r, t in the backslash style). Unescaping never reads past its input and leaves text that contains no escapes unchanged.",
  ['inputs'], 'all byte strings as column values, all column counts',
  'The tests unescape a few literal strings; nothing writes and reads back.',
  ['src/util.rs', 'src/text.rs'], [('unescape_vec / split_backslash / write_backslash / split_quotes / write_quotes', 'src/util.rs')],
  ['cdx::util::TextLine with TextFileMode', 'cdx tools with --text-in/--text-out'])
p('C08', 'column selection selects the specified columns in order',
  "A column specification selects exactly the columns it names: numbers count from 1 on the left or (with +) from the right, names and wildcards mean the columns so named in file order, ranges include both ends (a range written backwards is an error), exclusions remove columns from what is otherwise selected, and the output keeps the specified order. `cdx cut` writes for each line exactly those columns' bytes, and an impossible specification is reported as an error (a number past the last column is an error or an empty value), never as other columns.",
  ['inputs', 'configurations'], 'all column specifications over all headers',
  '28 fixed cut command lines; the specification language is not explored.',
  ['src/column.rs', 'src/bin/cdx/cut_main.rs'], [('ColumnSet::lookup / range / ranges / single', 'src/column.rs'), ('ColumnSet::select', 'src/column.rs')],
  ['cdx::column::ColumnSet', 'stdout of cdx cut'])
p('C09', 'files are combined only under compatible headers',
  "When several files are combined, the header policy is decided on every file: the output has exactly one header, equal to the first file's (or none, as the policy says), the later files' headers are never emitted as data, and a later file whose header conflicts under the chosen policy makes the command fail instead of silently mixing columns.",
  ['inputs', 'configurations', 'histories'], 'all sequences of headers (present, absent, equal, different), all policies',
  'Tests use two files at a time with two policies.',
  ['src/util.rs', 'src/text.rs', 'src/bin/cdx/cat_main.rs'], [('HeaderChecker::check_file', 'src/util.rs')], ['cdx::util::HeaderChecker', 'cdx cat', 'cdx sort'])
p('C10', 'wildcard matching has its standard meaning',
  "A wildcard pattern matches a text exactly when the text can be obtained by replacing every * with some (possibly empty) run of characters and every ? with exactly one character, all other characters matching themselves, up to letter case when matching is case-insensitive. This holds for byte and for character patterns, and matching always terminates.",
  ['inputs'], 'all patterns and all texts',
  'Backtracking faults need repeated stars with repeated partial matches; tests sample a dozen pairs.',
  ['src/util.rs', 'src/matcher.rs'], [('StringLike::glob / bglob / sglob', 'src/util.rs')], ['cdx::util', 'cdx::matcher "glob"'])
p('C11', 'join gives the relational join of its inputs',
  "For inputs sorted by their keys, `cdx join` writes exactly one output line per pair of lines with equal keys, sends every line without a partner to the requested unmatched output and nowhere else, and loses or duplicates nothing. The first input may repeat keys, the second (as documented for the quick join) not; more than two inputs are an error.",
  ['inputs'], 'all sorted inputs, all multiplicities of keys in the first',
  'Twelve fixed joins with unique or pairwise keys.',
  ['src/join.rs', 'src/bin/cdx/join_main.rs'], [('Joiner::join_quick', 'src/join.rs')], ['stdout and --also files of cdx join'])
p('C12', 'uniq reports each run of equal lines once with its true count',
  "For a grouped input, `cdx uniq` writes one line per maximal run of lines with equal keys: the first or last line of the run, or the one with the extreme value of a column, as requested, with the exact number of lines of the run when counting.",
  ['inputs', 'configurations'], 'all inputs, all run lengths (including a single run and a run at end of file), all which/count/agg options',
  'Tests use a few small files.',
  ['src/bin/cdx/uniq_main.rs', 'src/text.rs'], [('uniq main loop', 'src/bin/cdx/uniq_main.rs'), ('Count::write', 'src/bin/cdx/uniq_main.rs')], ['stdout of cdx uniq'])
p('C13', 'comparison operators and checks mean what they say',
  "The operators < <= > >= == != hold between two values exactly when the comparator's ordering says so, the operators come in complementary pairs and swapping operands gives exactly the mirror image (a < b when b > a); a range check with two operators accepts exactly the values satisfying both. `cdx verify` accepts a file exactly when every line satisfies every requested condition (matchers, ordering, uniqueness), including the last line.",
  ['inputs', 'configurations'], 'all operators, values, comparators and files',
  'Operator tables are not tested exhaustively, combined checks hardly at all.',
  ['src/util.rs', 'src/bin/cdx/verify_main.rs'], [('CompareOp::ord_ok / invert / reverse-like helpers, CheckLine, CheckBuff', 'src/util.rs')], ['cdx::util::{CompareOp, CheckBuff, CheckLine}', 'exit status of cdx verify'])
p('C14', 'expressions evaluate by the stated precedence and associativity',
  "An arithmetic expression evaluates to the value given by the usual mathematical reading: parentheses and factorials first, then powers, then signs, then multiplication, division and remainder, then addition and subtraction, then comparisons (which give 1 or 0); equal precedence associates to the left (powers to the right), unary minus negates, and a function is applied to its arguments in order. Variables take the values of the columns they name. A malformed expression is an error, never a value.",
  ['inputs', 'programs'], 'all expressions over all operators, columns and nestings',
  'About twenty fixed expressions.',
  ['src/expr.rs', 'src/shunting_yard.rs', 'src/tok2.rs'], [('to_rpn shunting yard', 'src/shunting_yard.rs'), ('tokenizer', 'src/tok2.rs'), ('Expr::eval', 'src/expr.rs')], ['cdx::expr', 'cdx calc', 'cdx::matcher "expr"'])
p('C15', 'sampling returns the requested number of lines of the file',
  "Sampling n lines from a file with m data lines returns exactly min(n, m) lines, each a line of the file and none taken more often than it occurs, the header apart, in file order, the first line among them and, when two or more are wanted, the last; line ranges select exactly the lines in the ranges, in file order. Memory kept is bounded by n.",
  ['inputs'], 'all n, m and line contents, all range lists',
  'Randomised code is tested on one size only.',
  ['src/sampler.rs', 'src/bin/cdx/sample_main.rs'], [('Smooth/Sampler reservoir', 'src/sampler.rs'), ('line ranges', 'src/bin/cdx/sample_main.rs')], ['cdx::sampler', 'stdout of cdx sample'])
p('C16', 'matchers combine by boolean logic, and early answers are final',
  "A list of line or value matchers accepts exactly when all (And) or at least one (Or) of its members accept, `not` accepts exactly when the plain matcher does not, and a column-group matcher (all, some, none, notall, mixed, uniform, at least, at most, exactly) accepts exactly when the number of matching columns satisfies it. `comp` does so for the columns that compare as asked with the given one, `count` accepts lines with that many columns and `expr` lines for which the expression is not zero. An answer given before all columns are examined is the answer that examining all of them would give.",
  ['inputs', 'configurations'], 'all matcher lists, all columns, all thresholds',
  'Tests use one or two matchers at a time and no column groups.',
  ['src/matcher.rs', 'src/util.rs', 'src/num.rs'], [('Determiner::match_mid / match_final, Thresh', 'src/matcher.rs'), ('LineMatcherList, MatcherList', 'src/matcher.rs')], ['cdx::matcher', 'stdout of cdx cgrep'])
p('C17', 'a value matcher accepts exactly the values its method describes',
  "For every pattern and every value, `exact` accepts exactly the value equal to the pattern, `prefix`, `suffix` and `infix` (also substr, substring) exactly the values that begin with, end with or contain it, `length` X,Y those of X to Y bytes (characters with `utf8`), `file-exact` those equal to a non-empty line of the file, `empty` only the empty value and `yes` all. With `case` the same holds after putting pattern and value into lower case (ASCII letters for bytes, every character on its own for `utf8`), with `trim` after removing white space around the value; `null` also accepts the empty value, `not` reverses the answer, and `and` / `or` require all / one of several patterns.",
  ['inputs', 'configurations'], 'all patterns, all values, all subsets and orders of the modifiers',
  'Tests match a few ASCII words with a few methods.',
  ['src/matcher.rs', 'src/text.rs'], [('PrefixMatch(C), SuffixMatch(C), InfixMatch(C), ExactMatch(C), LengthMatch, FileExactMatch(C)', 'src/matcher.rs'), ('MatchMaker::init, make2', 'src/matcher.rs'), ('Text::new_lower, equal_insens_quick', 'src/text.rs')], ['cdx::matcher', 'stdout of cdx cgrep'])
p('C18', 'the reader delivers every line once with truthful positions',
  "Reading a file delivers every data line exactly once, in order and byte for byte, for any chunking of the underlying input and with or without a final newline; the previous n lines kept for look-back are exactly the n lines before the current one, and reported line numbers and byte offsets are those of the delivered line.",
  ['inputs', 'histories'], 'all files, all look-back depths, all sequences of reads',
  'Look-back is only used at depth 1 with tiny files.',
  ['src/text.rs', 'src/util.rs'], [('Reader::getline / incr / prev_line', 'src/util.rs'), ('InfileContext / FileLocData', 'src/util.rs')], ['cdx::util::Reader'])
p('C19', 'every key comparator is a consistent ordering of its values',
  "Each built-in comparator (plain bytes, case-insensitive, length, IP address, number, float) is a total preorder: reflexive, antisymmetric and transitive on all byte strings, malformed values included, and agrees with the natural order of the values it names: bytes lexicographically, letter case ignored for lower, lengths by size, IPv4 addresses by their 32-bit value, floats by numeric value.",
  ['inputs'], 'all triples of byte strings',
  'Transitivity is a three-place universal property; tests check a few pairs.',
  ['src/comp.rs', 'src/util.rs', 'src/num.rs'], [('Compare::comp of each comparator', 'src/comp.rs'), ('cmp_insens / equal_insens', 'src/util.rs'), ('ip parsing', 'src/comp.rs')], ['cdx::comp::CompMaker'])
p('C20', 'output column names are unique and valid',
  "A header that a tool puts together (cut, paste, join, uniq) never contains two columns of the same name, unless duplicates were explicitly allowed: under the chosen policy a repeated name is either renamed to one not yet used (as the user's renames say, else by appending the next free number), or reported as an error; no other name or position is changed, renamed names are valid column names, and a rename that was not used is an error unless --rename-sloppy is given.",
  ['inputs', 'configurations'], 'all sequences of column names and policies',
  'Only the simplest duplicate is tested; a generated name that is itself already taken is not.',
  ['src/column.rs', 'src/util.rs'], [('ColumnHeader::push / check', 'src/column.rs')], ['cdx::column::ColumnHeader', 'header of cdx paste, join, uniq, cut'])
p('C21', 'numbers in options are read exactly',
  "Every number given in an option or specification is read as exactly the decimal value written, times exactly the power its suffix stands for; anything after the number is reported or returned untouched, and a value that does not fit is an error instead of a wrong number or a crash.",
  ['inputs'], 'all byte strings', 'Tests parse a dozen strings, no suffix products and no overflow.',
  ['src/num.rs', 'src/util.rs'], [('suffix_valu / suffix_valf', 'src/num.rs'), ('StringLike::to_usize / to_isize / to_f64', 'src/util.rs')], ['cdx::num', 'cdx::util::StringLike'])
p('C22', 'cat, paste and transpose rearrange whole lines and columns only',
  "`cdx cat` writes the data lines of its inputs in order and unchanged (apart from explicitly requested padding, numbering or skipping), adding a missing final newline and nothing else; `cdx paste` puts line i of every file side by side, filling exhausted files with the fill value given for the column (the last one, if several are); `cdx transpose` writes column j of the input as line j, so transposing a rectangular table twice gives it back.",
  ['inputs'], 'all files, with and without headers and final newlines', 'Small fixed files; chunk boundaries, missing final newlines and unequal lengths are barely covered.',
  ['src/bin/cdx/cat_main.rs', 'src/bin/cdx/paste_main.rs', 'src/transpose.rs'], [('cat main', 'src/bin/cdx/cat_main.rs'), ('paste main', 'src/bin/cdx/paste_main.rs'), ('transpose', 'src/transpose.rs')], ['stdout of cdx cat/paste/transpose'])
p('C23', 'aggregates summarise exactly the values of their group',
  "An aggregate reports the named statistic of exactly the values added since its last reset, in every grouping: count the number of values, sum, mean, minimum and maximum by the stated comparison, prefix and suffix the longest common prefix or suffix of all values, merge the parts of all values (sorted, counted, without equal neighbours, limited in length and number as requested). Results do not depend on other groups or on earlier results.",
  ['inputs', 'histories'], 'all sequences of add, result and reset', 'Aggregates are tested on one small group each.',
  ['src/agg.rs', 'src/bin/cdx/wc_main.rs'], [('Agg::add/result/reset for each aggregator', 'src/agg.rs'), ('common_prefix / common_suffix', 'src/agg.rs')], ['cdx::agg', 'stdout of cdx uniq --agg, --agg-pre, --agg-post', 'stdout of cdx wc'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')

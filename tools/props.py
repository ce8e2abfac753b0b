import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [],"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(d)

add("C01","Every text gets an answer: parsing and all later calls return",
 "For every string, parsing returns either a statement and no error, or an error and no statement; it never panics, never overflows the stack and never runs without end, and the error can always be rendered. Formatting, type checking and walking a statement obtained from parsing return as well. Moderate nesting and length (a thousand levels or elements) of an otherwise valid statement is accepted, deeper nesting is at worst rejected.",
 ["inputs"],"all byte strings: valid, damaged, truncated, random bytes, and every construct repeated or nested up to hundreds of thousands of times",
 "the tests parse a few hundred well-formed statements and a few dozen malformed ones; none is deeply nested, truncated at every byte or random",
 ["parser.go","composite.go","primitive.go","datetime.go","geometry.go","token.go","scanner/scanner.go","format.go","typecheck.go","walk.go"],
 [("recursive descent with a nesting limit","parser.go maxDepth, parseUnaryExpr"),("error results carry no statement","parser.go parse0")],observe=["Parse","Error.Error","Format","CheckType","Walk","Visit","Tokenizer.Scan"])
add("C02","Exactly the statements of the language are accepted",
 "A text is accepted exactly if the whole of it is one statement of the language: an optional leading keyword, optional variable assignments, one condition, an optional repetition and an optional reset. Nothing before, between or after these parts is skipped, ignored or made up, so that an unclosed, misplaced, doubled, missing or trailing token anywhere leads to an error.",
 ["inputs"],"all token sequences; decided for every viable sequence of the enumerated vocabularies and every sequence one token beyond one",
 "a grammar has infinitely many sentences and non-sentences; the tests sample sentences, and hardly any near-miss",
 ["parser.go","composite.go","primitive.go","datetime.go","geometry.go","token.go"],
 [("recursive descent","parser.go parse0, parseBinaryExpr, parseUnaryExpr"),("end of text is required","parser.go parse0")],observe=["Parse"])
add("C03","Expressions have the documented precedence and associativity",
 "The tree of an expression is the one given by the five documented precedence levels with left associativity within a level, and parentheses group and are kept as nodes. Every spelling of an operator (including the two-word negations and the aliases) denotes its own operator, and each operand stands on its own side.",
 ["inputs"],"all chains of operators and parentheses, decided for all pairs of operators and all chains up to the enumerated depth",
 "the tests compare a handful of shapes, mostly of two operators",
 ["parser.go","token.go","keyword.go"],[("precedence climbing","parser.go parseBinaryExpr"),("precedence table","token.go Precedence")],observe=["Parse","BinaryExpr","ParenExpr"])
add("C04","Numbers, units, strings and booleans keep their exact value",
 "A numeric literal denotes the number that its digits say (64-bit integers exactly and rejected beyond, decimals as the nearest double), with its sign, and with the quantity and unit of the unit word that follows it: percent, pressure, distance, speed, temperature or duration. Strings denote the characters between their quotes as written, and true/up and false/down the two truth values. Unit words that are none of the documented spellings are not taken for units.",
 ["inputs"],"all literals, all unit spellings, all compound durations, all signs",
 "the tests contain one or two literals per unit",
 ["primitive.go","units.go","parser.go"],[("number and unit parsing","primitive.go"),("unit tables","units.go")],observe=["Parse","IntTyp","FloatTyp","PercentTyp","PressureTyp","DistanceTyp","SpeedTyp","TemperatureTyp","DurationTyp","StringTyp","BooleanTyp"])
add("C05","Calendar literals denote exactly the dates, times, days and months written",
 "A date, time, weekday or month literal is accepted exactly if its fields are in range and in the documented form, and denotes those fields: year, month and day; hour, minute, optional second and half of day; the named day or month. Lists keep all elements in order, a range keeps its bounds, and a literal with one element is that element.",
 ["inputs"],"all calendar literals: all names, all boundary values of the fields, all list, range and separator shapes up to the enumerated length",
 "the tests cover a few dates and times and some names",
 ["datetime.go","units.go"],[("calendar parsing","datetime.go"),("names of months and days","datetime.go")],observe=["Parse","DateTyp","TimeTyp","WeekdayTyp","MonthTyp","ArrayTyp","Range"])
add("C06","Geometries keep every coordinate, ring, radius and nesting as written",
 "A geometry literal denotes exactly the coordinates, lines, rings and objects written, in order, with their signs and with the radius or margin that follows it, and objects stand only in the containers that take them. A coordinate is a pair of numbers; anything incomplete, superfluous or unclosed is rejected.",
 ["inputs"],"all geometry literals up to the enumerated length, random ones beyond",
 "the tests contain a few well-formed literals per kind",
 ["geometry.go"],[("geometry parsing","geometry.go")],observe=["Parse","GeometryPointTyp","GeometryLineTyp","GeometryPolygonTyp","GeometryMultiObjectTyp","GeometryCollectionTyp"])
add("C07","Selectors, references, arrays and ranges keep their parts",
 "A selector has the name (in lower case), the exact set of device arguments, the wildcard and the properties that are written, a reference the name after its sign with its case, an array all its elements in order with one element kind, a range its two bounds. Arrays of mixed kinds and ranges with bounds that are no range values are rejected.",
 ["inputs"],"all selectors, references, arrays and ranges up to the enumerated length, random ones beyond",
 "the tests contain a few of each",
 ["composite.go","parser.go"],[("selector, array, range and reference parsing","composite.go")],observe=["Parse","Selector","Ref","ArrayTyp","Range","WildcardTyp"])
add("C08","Statements: assignments, condition, repetition and reset land where they belong",
 "A parsed statement has the assigned variables in order with their case, names and values, each name at most once; one condition; and the repeat count, repeat interval and reset delay exactly if they are written. Repeat counts are integers, intervals and delays are durations, variables are not assigned references, and every other combination is rejected.",
 ["inputs"],"all clause sequences up to the enumerated length, random statements beyond",
 "the tests contain about a dozen combinations of clauses",
 ["parser.go","ast.go"],[("clause parsing","parser.go parseTriggerStmt, parseSet, parseRepeat, parseReset"),("duplicate check","ast.go SetVar")],observe=["Parse","Trigger","Assign"])
add("C09","Formatting preserves meaning: formatted text parses to the same statement",
 "For every accepted text the formatted statement is accepted again and parses to a statement that is equal in everything but positions. No value, unit, sign, name, argument, operator, parenthesis, separator or clause is lost, added, reordered or rounded.",
 ["inputs"],"all accepted statements",
 "the tests compare the output for a few statements with itself",
 ["format.go"],[("format methods","format.go"),("number formatting","format.go, primitive types")],observe=["Format","Parse"])
add("C10","Formatting is canonical: deterministic and idempotent",
 "Formatting the same statement always gives the same bytes, formatting the re-parsed output gives that output again, and texts that differ only in blanks, in the case of keywords or in optional punctuation are formatted alike. Device arguments are written in one fixed order, and keywords and units in one fixed spelling.",
 ["inputs","histories"],"all accepted statements, all of their layouts, repeated calls",
 "the tests format each statement once; the order of map iteration varies from call to call",
 ["format.go"],[("sorted arguments","format.go Selector"),("indentation","format.go")],observe=["Format"])
add("C11","A failing writer is always reported, and what was written is a prefix",
 "If the writer fails at any call, formatting returns that error, makes no further effort to write, and what reached the writer until then is a prefix of the complete output. Without a failure the result is nil and the complete output was written, in order and once.",
 ["fault_sequences"],"every writing call of the formatting of every statement as the one that fails",
 "no test uses a writer that fails",
 ["format.go"],[("error-keeping writer","format.go Format")],observe=["Format"])
add("C12","Type checking accepts exactly the well-typed statements",
 "Type checking reports an error exactly if some operator is applied to operands for which it is not defined, given the declared selector types and the assigned variables; it reports the first such operator in evaluation order. It looks at every part of the condition, changes neither statement nor dictionary, and gives the same answer every time.",
 ["inputs","configurations"],"all operators with all pairs of operand kinds, directly, nested, in parentheses and via variables, under all dictionaries",
 "the tests contain a few dozen of the tens of thousands of combinations",
 ["typecheck.go"],[("operator tables","typecheck.go"),("recursive check","typecheck.go CheckType")],observe=["CheckType"])
add("C13","Walking visits every node once, in order, and obeys the visitor",
 "Walking a tree calls the visitor for every node, parents before children and children in source order, exactly once, with the visitor that was returned for the parent; it leaves out the children of a node for which no visitor is returned, and tells the visitor with a nil node when the children are done. Absent clauses are not visited, and the walk changes nothing.",
 ["inputs","histories"],"all trees and all sequences of decisions of visitors",
 "the tests walk a couple of trees with a visitor that always goes on",
 ["walk.go"],[("recursive walk","walk.go Walk, Visit")],observe=["Walk","Visit"])
add("C14","The tokenizer classifies every text completely and in order",
 "The tokens of a text are its longest words, numbers, strings, operators and signs in order, each with its kind (keywords in any case), its lower-case literal, its source text and the offset of its first byte; no character other than blanks is skipped. After the last token the end is reported, however often one asks, and an error is reported exactly if the text has a malformed string, a NUL or a byte sequence that is not UTF-8. The word given for a kind of token is scanned as that kind.",
 ["inputs"],"all texts, decided for all character sequences of the enumerated alphabets and random ones beyond",
 "the tests scan some lists of well-formed tokens",
 ["token.go","keyword.go","scanner/scanner.go"],[("character scanner","scanner/scanner.go Scan"),("token classification","token.go scan"),("keyword table","keyword.go")],observe=["Tokenizer.Scan","Tokenizer.Offset","Tokenizer.TokenText","Tokenizer.Err","Tokenizer.ErrorCount","Token.Precedence","KeywordString"])
add("C15","Tokens do not depend on how the reader delivers the text",
 "The tokens, literals, offsets and errors of a text are the same however the reader splits it into chunks, also with empty reads and with the end reported together with the last bytes or after them. Text of any length, and tokens and characters that straddle the boundaries of the internal buffer, are read completely.",
 ["schedules","inputs"],"all ways to split a text into reads, at all positions relative to the buffer",
 "the tests read from in-memory strings far shorter than the buffer",
 ["scanner/scanner.go","token.go"],[("buffer refill","scanner/scanner.go next"),("token text across refills","scanner/scanner.go TokenText, tokBuf")],
 [("srcBuf, srcPos, srcEnd, srcBufOffset","unread part of the text and its place","scanner/scanner.go"),("tokBuf, tokPos, tokEnd","text of the current token","scanner/scanner.go")],observe=["NewTokenizer","Tokenizer.Scan"])
add("C16","Pushing tokens back never loses, repeats or reorders tokens",
 "After a pushback the next scan returns the last token again, with the same kind, literal, text and offset, and the scan after it continues with the token that follows; cancelling the pushback restores the normal course, repeated pushbacks count once, and before the first token there is nothing to push back. This holds at every token, also for those that need a look at the next one, and at the end.",
 ["histories"],"all sequences of scans, pushbacks and cancellations, at all kinds of tokens",
 "the tests scan forward only, or push back once",
 ["token.go"],[("pushback of one token","token.go Reset, Unwind, Scan")],[("hop, peek, last","token pushed back, raw token read ahead, last token","token.go Tokenizer")],observe=["Tokenizer.Scan","Tokenizer.Reset","Tokenizer.Unwind","Tokenizer.Offset","Tokenizer.TokenText"])
add("C17","Lexical errors and reader failures never go unnoticed",
 "If the text has a lexical error anywhere, also after the last clause, parsing it is rejected and the tokenizer reports an error that stays reported. If the reader fails after any number of bytes, with or without bytes in the failing read, the tokenizer delivers the tokens of the bytes before the failure, then the end, and reports an error.",
 ["fault_sequences","inputs"],"a failure at every byte and in every read of every schedule; a malformed piece at every place of a statement",
 "no test uses a failing reader; lexical errors are tested at one or two places",
 ["token.go","scanner/scanner.go","parser.go"],[("error callback","token.go NewTokenizer"),("read errors","scanner/scanner.go next"),("check of the scanner's errors","parser.go parse0")],observe=["Parse","Tokenizer.Err","Tokenizer.ErrorCount"])
add("C18","Calls are independent: no result depends on other calls",
 "What parsing, formatting, checking, walking and scanning give depends on their arguments alone: not on calls made before, not on calls made at the same time from other goroutines, not on how earlier calls ended (rejected, failed, panicked in a visitor or writer, or given up), and not on what callers did to statements they got before. Statements share no changeable parts, and formatting, checking and walking change nothing, so that one statement can be used by many goroutines at once without a data race.",
 ["schedules","histories"],"all histories of up to five calls and changes on up to three statements; all sequences of three calls of which any may end early; all overlaps of up to three callers; random calls of eight goroutines under the race detector",
 "the tests make one call at a time on fresh statements, without the race detector",
 ["parser.go","token.go","format.go","typecheck.go","walk.go","ast.go","keyword.go"],[("no package state is written after initialisation","all files"),("every call makes its own parser, tokenizer and tree","parser.go Parse")],observe=["Parse","Format","CheckType","Walk","Tokenizer"])
add("C19","Positions span exactly the source of each node",
 "Every node's first and last position are the offsets of the first and the last byte of the text that it was written as, in bytes, whatever the blanks, lines and multi-byte characters around it; operators and assignment signs are positioned at their first byte. Children lie within their parents and in order.",
 ["inputs"],"all nodes of all accepted statements in all layouts",
 "the tests compare positions of a few nodes in one-line ASCII texts",
 ["parser.go","composite.go","primitive.go","datetime.go","geometry.go","ast.go"],[("lpos, rpos of nodes","ast.go"),("token offsets","token.go Offset")],observe=["Expr.Pos","Expr.End","BinaryExpr.OpPos","Assign.TokPos"])
add("C20","Layout and keyword case carry no meaning",
 "Blanks, tabs, carriage returns and line ends may stand between any two tokens, in any number, and keywords, operators words, geometry, calendar and month and day names may be written in any case, without a change of acceptance or of the statement obtained. Where two tokens need no blank to be told apart, none is required.",
 ["inputs"],"all layouts and casings of the enumerated and random token sequences, accepted or not",
 "the tests use one layout per statement",
 ["scanner/scanner.go","token.go","datetime.go"],[("blank skipping","scanner/scanner.go Scan"),("lower-case lookup","token.go scan")],observe=["Parse"])
add("C21","Errors point at the offending token",
 "A rejection of a text by its tokens is an error with the offset of a token that cannot be part of any statement beginning with the tokens before it, or of the construct that it breaks; never an earlier one, and never a place inside a token or outside of the text. It quotes exactly the text before that token and the token itself, and its message has the offset and both quotations.",
 ["inputs"],"all rejected texts of the enumerated vocabularies, in all layouts, and random ones",
 "the tests check that an error is returned, not what it says",
 ["parser.go"],[("error construction","parser.go error, Error")],observe=["Error.Offset","Error.Msg","Error.Lit","Error.Error"])
add("C22","A statement's variables: each name once, in order, refusals change nothing",
 "Adding a variable to a statement is refused exactly if a variable of that name (with its case) is there, whether it was parsed or added; otherwise it becomes the last one. A refused addition changes nothing, and formatting afterwards writes all variables, in order, once.",
 ["histories"],"all histories of up to six additions, parses and reads on up to three statements; long histories with many variables in any order",
 "no test adds variables after parsing",
 ["ast.go","format.go"],[("duplicate check and append","ast.go SetVar")],observe=["Trigger.SetVar","Trigger.Vars","Format"])
add("C23","The scanner package: tokens, characters and positions as configured",
 "The scanner, used on its own, returns the tokens of a text one after another as its mode, blanks and identifier predicate prescribe: the longest token of an enabled class, comments returned or skipped, everything else character by character. Scan, Next and Peek may be mixed and neither lose, double nor reorder a character; token texts, offsets, lines and columns are those of the text; a malformed token is reported once, at its place, to the error callback or in the error count; at the end of the text every further call reports the end; Init starts afresh.",
 ["inputs","histories"],"all texts of the enumerated shapes with all sequences of calls up to a bound, in several modes, with buffer-filling padding and with readers that deliver the text in any pieces; longer texts and sequences at random",
 "the tests scan fixed texts in one go; the interplay of modes, lookahead, line counting and the read buffer is exponential",
 ["scanner/scanner.go"],[("token classes and modes","scanner/scanner.go Scan, scanIdentifier, scanNumber, scanComment"),("character reading, lines and columns","scanner/scanner.go next, Next, Peek, Pos")],
 observe=["scanner.Scanner.Scan","Next","Peek","TokenText","Position","Pos","ErrorCount"],
 state=[("read buffer","source bytes read, token bytes spilled, last character and line lengths","scanner/scanner.go Scanner")])
add("C24","Statements that callers build or change are treated like parsed ones",
 "Formatting, type checking and walking look at a statement's exported fields only. A statement that a caller put together from nodes of its own, or changed after parsing - conditions joined, operands, values, elements, units, operators replaced, clauses and variables added, removed or renamed, one node used twice - is formatted as the same statement is when parsed, type-checked by the same rules and walked node by node, also if it was formatted, checked or walked before the change, or changed by a visitor below the node that it is called for, and whether empty parts are nil or empty.",
 ["inputs","histories"],"every edit at every place of the enumerated statements, all pairs of edits of small ones, long random histories of edits of any statements",
 "the tests format, check and walk statements as the parser left them",
 ["format.go","typecheck.go","walk.go","ast.go"],[("formatting, checking and walking of fields","format.go, typecheck.go, walk.go"),("exported nodes","ast.go")],observe=["Format","CheckType","Walk","Visit","Trigger"])
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
import sys
sys.path.insert(0,'/tmp/x')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))

tech={"C01":"TLC enumeration of the TLA+ grammar; replay of all texts and of deep nestings on the real code",
"C09":"TLA+ writing relation and round-trip invariant checked by TLC; replay on Parse/Format",
"C10":"TLA+ canonical text; TLC-enumerated statements replayed on Format in several layouts",
"C11":"TLA+ model of failing writers checked by TLC; every failure point replayed on Format",
"C12":"TLA+ typing relation enumerated by TLC; replay on CheckType",
"C13":"TLA+ visitor protocol checked by TLC; every visitor behaviour replayed on Walk",
"C14":"TLA+ lexer transducers enumerated by TLC; replay on Tokenizer",
"C15":"TLA+ model of the read buffer, all read schedules by TLC; replay on Tokenizer",
"C16":"TLA+ model of pushback, all histories by TLC; replay on Tokenizer",
"C17":"TLA+ read-buffer model with failing readers, and lexer model; replay on Tokenizer and Parse",
"C18":"TLA+ models of call histories and overlapping calls by TLC; replay under the race detector",
"C23":"TLA+ model of the scanner with modes; TLC-enumerated texts and calls replayed on it",
"C24":"TLA+ model of edited trees by TLC; every edit replayed on Format, CheckType and Walk",
"C22":"TLA+ model of trees and variables, all histories by TLC; replay on SetVar and Format"}
checks=[]
for p in P:
    i=p["id"]
    checks.append({"property":i,"quick_cmd":f"sh check.sh {i} quick","thorough_cmd":f"sh check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
      "technique":tech.get(i,"TLA+ grammar enumerated by TLC; every text replayed on Parse and trees compared"),
      "level":"model_checking",
      "level_note":"TLC checks the specification exhaustively within the stated bounds and generates every behaviour; each is replayed on the real code and compared. Beyond the bounds: random texts judged by the same specification. Trusts TLC, the Go compiler, strconv for decimal-to-binary conversion, and the abstraction functions of the harness."})
json.dump({"version":1,"setup_cmd":"sh setup.sh","checks":checks,"not_applicable":[],"notes":"TLA+ with TLC; spec/ holds the modules, harness/ the replay. No hooks in /repo. known-findings.jsonl lists the repaired defects."},open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
open('/verif/MANIFEST.json','a').write('\n')

#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "Parsing never crashes or hangs, and its result is always usable",
 "For every input byte sequence and every combination of parse options, parsing returns after finitely many steps with either a tree or an error (exactly one of them), and never panics. Every tree it returns can be walked by a visitor and handed to the unordered interpretation without panicking.",
 ["inputs", "configurations"], "all input byte sequences, valid or not, and all option combinations",
 "The suite parses some hundred fixed well-formed files and a few malformed ones; a crash needs an odd token at an odd place, which only a quantification over all inputs rules out.",
 ["protoparser.go", "parser/proto.go", "parser/message.go", "parser/extend.go", "lexer/lexer.go", "lexer/scanner/scanner.go"],
 [("statement dispatch and empty-statement fallback", "parser/proto.go parseProtoBody"), ("end-of-input handling of every scan loop", "lexer/scanner/*.go")],
 ["protoparser.Parse", "parser.Proto.Accept", "protoparser.UnorderedInterpret"])

prop("C02", "Tokens are exactly those the language's lexical grammar defines",
 "For every text, the lexer splits it into the identifiers, integer (decimal, octal, hexadecimal) and float literals, string literals with their escapes, booleans, keywords, comments and punctuation that the published lexical grammar defines, each taken as long as possible and reported with its exact source text. Literal kinds and keywords are recognised only when asked for, and an unterminated or malformed string, number or comment is reported as illegal, and once to the error callback, instead of being read as something else; a well-formed text causes no error.",
 ["inputs", "configurations"], "all character sequences and all recognition modes",
 "Unit tests list about fifty literals; the grammar's alternatives meet at the character after a prefix (0x, 1e, backslash, slash-star) and every following character matters.",
 ["lexer/scanner/scanner.go", "lexer/scanner/numberLit.go", "lexer/scanner/strLit.go", "lexer/scanner/ident.go", "lexer/scanner/comment.go", "lexer/scanner/lettersdigits.go", "lexer/scanner/token.go", "lexer/scanner/boolLit.go", "lexer/scanner/floatLit.go"],
 [("token dispatch on first character and mode", "lexer/scanner/scanner.go scan"), ("literal scanners", "lexer/scanner/numberLit.go, strLit.go, comment.go, ident.go")],
 ["lexer.Lexer.Next*, Token, Text", "scanner.Scanner.Scan"])

prop("C03", "Every reported source position is the true one",
 "For every UTF-8 input and file name, the offset, line and column reported for each token, element start, element end and comment start and end are the byte offset, the 1-based line and the 1-based character column of the very character they designate in the input, and carry the configured file name. This holds whatever whitespace, line breaks, comments, multi-byte characters or look-ahead precede the element. Moving a position over characters and back over the same characters ends where it began, and moving over a text in one step ends at its last character.",
 ["inputs", "histories"], "all UTF-8 inputs, all layouts, all look-ahead histories before an element is read",
 "Tests pin positions in a few fixed layouts; an error needs a line break or wide character inside re-read text, a combination the tests do not sweep.",
 ["lexer/scanner/position.go", "lexer/scanner/scanner.go", "parser/meta/position.go", "parser/comment.go", "parser/service.go", "parser/message.go"],
 [("Advance/Revert with per-line column memory", "lexer/scanner/position.go"), ("UnScan position restore", "lexer/scanner/scanner.go"), ("AdvancedBulk for comment ends", "lexer/scanner/position.go")],
 ["Meta.Pos and Meta.LastPos of every element", "lexer.Lexer.Pos"],
 [("columns", "column of the newline of each line already crossed", "lexer/scanner/position.go")])

prop("C04", "Looking ahead and un-reading leave the token stream unchanged",
 "For every text, and any interleaving of reading, peeking one or several tokens, conditionally consuming a token and putting back the token just read, the tokens, texts and positions subsequently read are the same as if no look-ahead or un-reading had happened. Putting a token back also restores the position from which it was scanned, including across line breaks and comments. The comments between two places are told once each and in their order, however often they were looked at.",
 ["inputs", "histories"], "all texts and all sequences of read/peek/un-read operations",
 "Tests exercise single un-reads over one-line texts; the stack of put-back characters and remembered columns depends on the operation history.",
 ["lexer/lexer.go", "lexer/scanner/scanner.go", "lexer/scanner/position.go"],
 [("UnNext/UnNextTo/Peek/PeekN/ConsumeToken", "lexer/lexer.go"), ("UnScan, read, unread, peek", "lexer/scanner/scanner.go")],
 ["lexer.Lexer.Next*, Peek, PeekN, UnNext, ConsumeToken; Token, Text, RawText, Pos"],
 [("lastReadBuffer", "characters put back, read again first", "lexer/scanner/scanner.go"), ("lastScanRaw", "raw characters of the last scan", "lexer/scanner/scanner.go")])

prop("C05", "Messages and fields: accepted iff grammatical, recorded exactly",
 "A message, normal field, map field, group, oneof or extend statement is accepted exactly when it follows the documented grammar (including the documented permissive extras), and its label flags, types, names, numbers, options, nesting and order of statements in the tree are exactly what was written. Nothing that was written is dropped, duplicated, reordered or read as a different kind of statement.",
 ["inputs"], "all token sequences as message/oneof/extend bodies, with all names, numbers and nesting",
 "Tests contain chosen good bodies and a few bad ones; wrong acceptance (for example an incomplete field swallowed before a semicolon) is only visible over all token sequences.",
 ["parser/message.go", "parser/field.go", "parser/mapField.go", "parser/groupField.go", "parser/oneof.go", "parser/extend.go", "lexer/messageType.go"],
 [("statement dispatch", "parser/message.go parseMessageBody"), ("field grammar", "parser/field.go ParseField"), ("group look-ahead", "parser/groupField.go peekIsGroup"), ("oneof loop", "parser/oneof.go ParseOneof")],
 ["protoparser.Parse: Message, Field, MapField, GroupField, Oneof, OneofField, Extend"])

prop("C06", "Enums: accepted iff grammatical, recorded exactly",
 "An enum is accepted exactly when it follows the documented grammar, and its name, its values with sign and number as written, their value options, its options, reserved and empty statements appear in the tree exactly as written and in the same order. Nothing written in an enum is dropped, duplicated or read as something else.",
 ["inputs"], "all token sequences as enum bodies",
 "Tests hold chosen enums; mis-acceptance and mis-recording depend on every token position.",
 ["parser/enum.go", "parser/reserved.go", "parser/option.go"],
 [("enum body dispatch", "parser/enum.go parseEnumBody"), ("enum field", "parser/enum.go parseEnumField")],
 ["protoparser.Parse: Enum, EnumField, EnumValueOption"])

prop("C07", "Services and RPCs: accepted iff grammatical, recorded exactly",
 "A service is accepted exactly when it follows the documented grammar, and each rpc's name, request and response types, streaming flags and options, and the service's options and empty statements, appear in the tree exactly as written and in the same order. Nothing written in a service is dropped, duplicated or read as something else.",
 ["inputs"], "all token sequences as service and rpc bodies",
 "Tests hold chosen services; the two stream flags, body forms and optional trailing semicolons multiply beyond them.",
 ["parser/service.go", "lexer/messageType.go", "parser/option.go"],
 [("service body dispatch", "parser/service.go parseServiceBody"), ("rpc grammar", "parser/service.go parseRPC, parseRPCRequest, parseRPCResponse, parseRPCOptions")],
 ["protoparser.Parse: Service, RPC, RPCRequest, RPCResponse"])

prop("C08", "Option names and constants are read completely and exactly",
 "Wherever an option may occur (file, message, enum, service, rpc, oneof, field, enum value), its name and constant are accepted exactly when they follow the documented option grammar, and the recorded name and constant are the source tokens in order, including signs, nested brackets and braces and their separators. A value ends exactly where its own closing bracket, brace or literal ends.",
 ["inputs", "configurations"], "all token sequences as option names and constants, nested aggregates and lists, in every option position",
 "Tests cover a dozen endpoint-style options; aggregates and lists nest and their separators are optional, so the accepted language is not sampled by them.",
 ["parser/option.go", "parser/field.go", "parser/enum.go", "lexer/constant.go", "lexer/fullIdent.go"],
 [("option name", "parser/option.go parseOptionName"), ("constant, aggregate, list", "parser/option.go parseOptionConstant, parseCloudEndpointsOptionConstant, parseOptionConstants"), ("scalar constants", "lexer/constant.go ReadConstant")],
 ["Option.OptionName/Constant, FieldOption, EnumValueOption"])

prop("C09", "File-level statements: accepted iff grammatical, recorded exactly",
 "A file is accepted exactly when it is an optional byte order mark, an optional syntax, an optional edition statement and a sequence of import, package, option, message, enum, service, extend and empty statements, each following the documented grammar. The version and its quotes, the import modifiers and locations, and the package names are recorded exactly as written, and the body lists the statements in source order with none missing, extra or nil.",
 ["inputs"], "all token sequences at file level",
 "Tests hold chosen files; a stray token accepted next to a keyword or a lost statement shows only over all token sequences.",
 ["parser/proto.go", "parser/syntax.go", "parser/edition.go", "parser/import.go", "parser/package.go", "lexer/fullIdent.go", "lexer/emptyStatement.go"],
 [("file dispatch", "parser/proto.go ParseProto, parseProtoBody, parseBOM"), ("header statements", "parser/syntax.go, edition.go, import.go, package.go")],
 ["protoparser.Parse: Proto.Syntax, Proto.Edition, Proto.ProtoBody"])

prop("C10", "Reserved and extension ranges and declarations are recorded exactly",
 "A reserved or extensions statement is accepted exactly when it is a comma-separated list of ranges (number, optionally 'to' a number or max) or, for reserved, of field names; the ranges, names and extension declarations in the tree are exactly those written, in order. A statement mixing ranges and names is rejected, never partly recorded, and every declaration attribute keeps its own value, the last one where it is given more than once.",
 ["inputs"], "all token sequences after reserved and extensions, and inside declarations",
 "Tests have about ten such statements; a backtracking loss needs a list whose later item is of the other kind.",
 ["parser/reserved.go", "parser/extensions.go", "parser/declaration.go"],
 [("ranges or names", "parser/reserved.go ParseReserved, parseRanges, parseFieldNames"), ("declarations", "parser/extensions.go parseDeclarations, parser/declaration.go ParseDeclaration")],
 ["Reserved.Ranges/FieldNames, Extensions.Ranges/Declarations, Declaration.*"])

prop("C11", "Each comment goes to the element it belongs to, text intact",
 "In an accepted file, the comments that stand directly before a statement of a body (or before the header statement, or the first statement when there is no header) are that statement's leading comments, in order (empty statements and the options of an rpc carry none); a comment beginning on the line on which a statement ends is its inline comment; a comment after an opening brace on the same line is recorded as the one behind the brace. Each comment keeps its exact source text and is attached to exactly one element, and comments embedded in an rpc head are listed once on the rpc.",
 ["inputs"], "all placements of // and /* */ comments and line breaks around the statements of file, message, enum, service, extend and oneof bodies",
 "Tests place comments at fixed spots; attachment depends on the line relation between each comment and each neighbour, and on what was re-read in between.",
 ["parser/comment.go", "parser/inlineComment.go", "parser/proto.go", "parser/message.go", "parser/enum.go", "parser/service.go", "parser/extend.go", "parser/oneof.go", "lexer/lexer.go"],
 [("ParseComments / parseInlineComment / MaybeScanInlineComment", "parser/comment.go, parser/inlineComment.go"), ("embedded comments", "lexer/lexer.go FindMidComments, lexer/scanner/scanner.go GetScannedComments")],
 ["Comments, InlineComment, InlineCommentBehindLeftCurly, EmbeddedComments of every element"])

prop("C12", "Remaining comments are kept in bodies on request, and only then",
 "With the option to include comments in bodies, every comment standing after the last statement of a file, message, enum, service or extend body, or in a body without statements, and not already attached to an element, appears in that body at its place, so no comment between body statements is lost. Without the option, bodies contain no comments and are otherwise identical.",
 ["inputs", "configurations"], "all comment placements, with the option on and off",
 "Tests check one placement per body kind with the option on.",
 ["parser/proto.go", "parser/message.go", "parser/enum.go", "parser/service.go", "parser/extend.go", "protoparser.go"],
 [("bodyIncludingComments branches", "parser/*.go"), ("option plumbing", "protoparser.go WithBodyIncludingComments")],
 ["ProtoBody, MessageBody, EnumBody, ServiceBody, ExtendBody"])

prop("C13", "Whitespace and comments between tokens never change what is parsed",
 "Inserting, removing or changing whitespace, line breaks or comments between any two tokens of a file changes neither whether it is accepted nor anything in the tree except positions and comments.",
 ["inputs"], "all files and all layouts of each",
 "A relation between pairs of inputs; each test parses a single layout.",
 ["lexer/scanner/scanner.go", "lexer/lexer.go", "parser/*.go"],
 [("whitespace and comment skipping in scan", "lexer/scanner/scanner.go scan"), ("raw re-reading", "lexer/scanner/scanner.go UnScan")],
 ["protoparser.Parse on two layouts of one token sequence"])

prop("C14", "Permissive parsing only adds acceptance, and adds only what is documented",
 "Every file that strict parsing accepts is accepted by permissive parsing, with the same tree, except that a semicolon after a block then belongs to the block instead of being an empty statement. Files accepted only permissively use one of the documented extras (aggregate or list option values, adjacent string literals, a leading dot in a parenthesised option name, a semicolon after a block), and adjacent string literals denote one literal that is their concatenation, with every character and escape of every piece kept.",
 ["inputs", "configurations"], "all files, with permissive parsing on and off",
 "Tests run most inputs in one of the two modes; the relation between the modes is not tested.",
 ["parser/option.go", "lexer/constant.go", "parser/message.go", "parser/service.go", "protoparser.go"],
 [("permissive branches", "parser/option.go, parser/message.go, parser/enum.go, parser/service.go, parser/oneof.go, parser/extend.go"), ("string merging", "lexer/constant.go mergeMultilineStrLit")],
 ["protoparser.Parse with WithPermissive(true/false)"])

prop("C15", "A visitor sees every element exactly once, in order, and can prune",
 "Walking any tree calls the visitor exactly once for the header statements, every body statement, every oneof field and option, every rpc option, every extension declaration and every comment attached to them, each with the method for its kind and in source order within each body, parents before their parts. When the visitor declines an element, nothing inside or attached to that element is visited and everything else still is.",
 ["programs", "inputs"], "all trees (all element kinds, nestings, presence of comments) and all visitor decisions",
 "One test walks one hand-made tree with a visitor that never declines.",
 ["parser/proto.go", "parser/message.go", "parser/enum.go", "parser/service.go", "parser/oneof.go", "parser/field.go", "parser/mapField.go", "parser/groupField.go", "parser/extend.go", "parser/extensions.go", "parser/declaration.go", "parser/reserved.go", "parser/option.go", "parser/import.go", "parser/package.go", "parser/syntax.go", "parser/edition.go", "parser/comment.go", "parser/emptyStatement.go"],
 [("Accept methods", "parser/*.go")], ["parser.Visitor calls"])

prop("C16", "The unordered form is a faithful partition of the ordered one",
 "For every tree of statements, the unordered interpretation succeeds and each of its lists holds exactly the statements of that kind of the corresponding body, in source order, each exactly once, at every nesting level, with names, comments and positions carried over. A nil tree gives nil, and a body holding a statement that cannot belong there is reported as an error and never silently dropped.",
 ["inputs", "programs"], "all trees, with any sequence of statement kinds in each body",
 "Tests interpret a few trees holding at most a couple of statements per kind.",
 ["interpret/unordered/proto.go", "interpret/unordered/message.go", "interpret/unordered/enum.go", "interpret/unordered/extend.go", "interpret/unordered/service.go"],
 [("type switches", "interpret/unordered/*.go")], ["protoparser.UnorderedInterpret", "unordered.Interpret*"])

prop("C17", "A rejected file yields an error that points at the trouble",
 "When parsing rejects a file it returns no tree and a non-nil error. A position in the error is a true position of the input (offset, line and column agree with the text, with the configured file name) and lies no further than the first token at which the text stops being the beginning of some acceptable file. The error the lexer tells for a malformed token, too, has a true position, at or behind the end of the last token.",
 ["inputs"], "all rejected inputs",
 "Tests only check that some error is returned.",
 ["parser/error.go", "lexer/error.go", "lexer/scanner/error.go", "parser/meta/error.go"],
 [("error construction from the lexer position", "parser/error.go unexpected, lexer/error.go unexpected")],
 ["error returned by protoparser.Parse; meta.Error.Pos"])

prop("C18", "A failing or fragmenting reader cannot change or truncate the result",
 "The result depends only on the bytes the reader delivers, not on how they are split into reads. When the reader fails with an error other than end of file, parsing reports an error and never returns a tree built from the part read so far; the lexer tells the reader's own error, never the end of the text, behind the tokens that were complete.",
 ["inputs", "fault_sequences"], "all ways of splitting the input into reads and all failure points of the reader",
 "All tests use in-memory readers that never fail and deliver everything at once.",
 ["lexer/scanner/scanner.go", "lexer/lexer.go", "parser/proto.go"],
 [("buffered rune reading and its error handling", "lexer/scanner/scanner.go read")],
 ["protoparser.Parse(io.Reader)"])

prop("C19", "Parses are independent of each other and of earlier parses",
 "Parsing touches no state outside its own reader and result, so any number of parses in any interleaving, also interleaved with visiting and interpreting other trees, give the same results as each alone, and parsing the same bytes again gives an equal tree. Visiting and unordered interpretation do not modify the tree they are given.",
 ["schedules", "histories"], "all interleavings and sequences of calls",
 "Tests call the parser sequentially on unrelated inputs and would not notice shared state.",
 ["protoparser.go", "lexer/lexer.go", "lexer/scanner/scanner.go", "parser/field.go", "parser/mapField.go"],
 [("no package-level mutable state", "parser/field.go typeConstants, parser/mapField.go keyTypeConstants, lexer/scanner/scanner.go eof")],
 ["protoparser.Parse called repeatedly"])

prop("C20", "Debug output and file name settings do not influence the result",
 "Turning debug output on or off changes neither acceptance, nor anything in the tree, nor the place and the words of the error of a rejected text. Setting a file name changes nothing but the file name, which then appears in every recorded element, end and comment position, in that of the error, and in the file's meta information.",
 ["inputs", "configurations"], "all inputs, with debug on and off and any file name",
 "Tests never enable debug output together with an assertion on the tree.",
 ["protoparser.go", "lexer/lexer.go", "lexer/scanner/scanner.go"],
 [("deferred debug logging in Next", "lexer/lexer.go Next"), ("filename options", "lexer/scanner/scanner.go WithFilename")],
 ["protoparser.Parse with WithDebug, WithFilename"])

prop("C21", "A file is the sequence of its statements; a cut-off file is rejected",
 "The body of a file made by writing acceptable statements one after another is the sequence of what each statement yields on its own, apart from positions, and one malformed statement makes the whole file rejected. A file cut off inside a statement, literal or block comment is rejected.",
 ["inputs", "programs"], "all sequences of statements and all truncation points",
 "A relation between several parses; tests never truncate or recombine files.",
 ["parser/proto.go", "parser/message.go", "lexer/scanner/scanner.go", "lexer/messageType.go", "lexer/fullIdent.go"],
 [("statement loops and end-of-file detection", "parser/proto.go parseProtoBody, parser/parser.go IsEOF")],
 ["protoparser.Parse"])

prop("C22", "Compound readers take exactly what they are named for",
 "For every text, the lexer's readers of full identifiers, message and enum types, constants and empty statements succeed exactly when the text begins with such a construct of the documented grammar, return it as written (adjacent string literals, read permissively, as one literal denoting their concatenation) with the position of its first token, and leave everything behind it unread, so that the next token is the one right behind it. Otherwise they return an error, and a missing empty statement leaves the text unread.",
 ["inputs", "histories"], "all texts, and every way of reading on",
 "Tests read a dozen well-formed identifiers and constants, mostly with nothing behind them.",
 ["lexer/fullIdent.go", "lexer/messageType.go", "lexer/enumType.go", "lexer/constant.go", "lexer/emptyStatement.go"],
 [("token loops and the final UnNext", "lexer/fullIdent.go, lexer/messageType.go, lexer/constant.go")],
 ["lexer.Lexer.ReadFullIdent, ReadMessageType, ReadEnumType, ReadConstant, ReadEmptyStatement"])

prop("C23", "A statement parser takes exactly its statement, with the same result",
 "Called directly on a lexer, each exported statement parser accepts the statements of its kind that a file accepts, and no others; yields for each the same tree as parsing the file does, and leaves the text behind the statement unread, whatever that text is. (A field whose type name is a keyword of message bodies is left open.)",
 ["inputs", "configurations"], "all statements of every kind with all continuations, strict and permissive",
 "Unit tests call the statement parsers on single statements with nothing behind them, and never relate them to the parse of a file.",
 ["parser/message.go", "parser/field.go", "parser/mapField.go", "parser/groupField.go", "parser/oneof.go", "parser/enum.go", "parser/extend.go", "parser/service.go", "parser/option.go", "parser/import.go", "parser/package.go", "parser/syntax.go", "parser/edition.go", "parser/reserved.go", "parser/extensions.go", "parser/declaration.go"],
 [("Parse methods of parser.Parser", "parser/*.go"), ("look-ahead put back at the end of a statement", "lexer/lexer.go UnNext, ConsumeToken")],
 ["parser.Parser.ParseMessage, ParseField, ParseOption and the others; the lexer afterwards"])

prop("C24", "What an element says about itself agrees with the source",
 "For every comment of an accepted file, IsCStyle tells whether it is a block comment, and Lines yields its text between the delimiters split at its line breaks, with nothing else removed or added. The version number of a syntax statement is the one written, a position prints as file name (or <input>), line and column, and setting an inline comment on any element changes that comment and nothing else.",
 ["inputs"], "all comments, syntax versions, positions and elements",
 "Tests look at a handful of comments and versions, not at delimiters repeated within the comment or at its edges.",
 ["parser/comment.go", "parser/syntax.go", "parser/meta/position.go", "parser/inlineComment.go"],
 [("prefix and suffix trimming", "parser/comment.go Lines")],
 ["parser.Comment.IsCStyle and Lines, parser.Syntax.Version, meta.Position.String, SetInlineComment"])

prop("C25", "Settings are independent, the last of a kind counts, defaults are fixed",
 "For every text and every sequence of options given to Parse, or to the lexer and the parser used directly, the result is the one of the last value given for each kind of setting and the documented default for the others (Parse is permissive and keeps no comments in bodies, a parser is strict and keeps none; no debug output, no file name). Neither the order of options of different kinds nor repetition nor the entry point matters.",
 ["inputs", "configurations"], "all texts and all sequences of options with all values",
 "Tests set one option at a time, once.",
 ["protoparser.go", "parser/parser.go", "lexer/lexer.go", "lexer/scanner/scanner.go"],
 [("options and their forwarding", "protoparser.go Parse, parser/parser.go NewParser, lexer/lexer.go NewLexer")],
 ["protoparser.Parse with options; parser.NewParser, lexer.NewLexer with options"])

prop("C26", "Every part of a tree belongs to one place and can be changed alone",
 "In the tree of every accepted text no element, option, range or comment object is reachable in two ways, or shared with the tree of another parse, and no two lists of the tree share storage: replacing a part, or appending to any list of the tree (comments, bodies, options, ranges, names), changes nothing anywhere else.",
 ["inputs", "histories"], "all accepted texts and all modifications of one list or part",
 "Tests compare trees by value, where shared parts and shared list storage look the same as separate ones; tools that edit trees break on them.",
 ["parser/comment.go", "parser/proto.go", "parser/message.go", "parser/service.go", "parser/extensions.go", "parser/enum.go"],
 [("comment lists handed from one reader to the next", "parser/proto.go parseProtoBody, parser/service.go, parser/extensions.go")],
 ["the tree returned by protoparser.Parse"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")

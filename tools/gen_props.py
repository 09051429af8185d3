import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":t,"meaning":t} for t in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
VIT="lindera-core/src/viterbi.rs"; TOK="lindera-tokenizer/src/tokenizer.rs"; TKN="lindera-tokenizer/src/token.rs"
PD="lindera-core/src/prefix_dict.rs"; CD="lindera-core/src/character_definition.rs"; UD="lindera-core/src/unknown_dictionary.rs"
DB="lindera-dictionary-builder/src/"; CF="lindera-filter/src/character_filter/"; TF="lindera-filter/src/token_filter/"
DUMMY="The repository's tests of tokenization need a downloaded dictionary; offline they run on a one-word dummy dictionary and fail, so the reliable tests never tokenize real text. "
p("T01","Tokens tile the input text exactly",
 "For every dictionary whose character categories all have unknown-word entries, user dictionary, mode and text, tokenizing yields non-empty tokens in text order whose texts concatenated are exactly the input. Each token's text is the slice of the input at its byte range; the ranges are contiguous from 0 to the text's length and lie on character boundaries; positions count 0,1,2,… over the whole text and every position length is 1.",
 ["inputs","configurations"],"all texts (any scripts, empty, delimiters anywhere) x all well-formed dictionaries x user dictionaries x modes",
 DUMMY+"Even the full tests sample a few sentences; tiling must hold for every text and lexicon.",
 [VIT,TOK],[("lattice construction","Lattice::set_text"),("token assembly","Tokenizer::tokenize")],["Tokenizer::tokenize"])
p("T02","Normal mode chooses a minimum-cost segmentation",
 "In normal mode the segmentation chosen for each sentence is a path of candidate words (dictionary entries, user entries, unknown-word candidates) from the sentence's start to its end. The sum of its word costs and of the connection costs between neighbours, including the connections to the sentence boundaries (context id 0), is minimal over all candidate paths.",
 ["inputs","configurations"],"all texts x all lexicons, connection matrices (asymmetric, negative) and character definitions",
 DUMMY+"A local test cannot distinguish an optimal path from a good one unless it compares with all alternatives.",
 [VIT,"lindera-core/src/connection.rs","lindera-core/src/mode.rs"],[("dynamic programming","Lattice::calculate_path_costs"),("cost lookup","ConnectionCostMatrix::cost"),("back-tracing","Lattice::tokens_offset")],["Tokenizer::tokenize"],["path cost and best predecessor of every lattice edge"])
p("T03","Unknown-word candidates follow the character category rules",
 "At a position, each category of the first character offers an unknown word if that category always invokes or if no dictionary word starts there: one character, or, when the category groups, the longest run of characters that have this category at the same rank, costed by that category's unknown-word entries; the category's length offers no further ones. In normal mode no unknown word starts inside the most recent unknown-word candidate; in decompose mode they may start anywhere. Tokens reported as unknown are always such candidates, and a sentence can always be segmented when every category has unknown-word entries.",
 ["inputs","configurations"],"all texts x all category tables (invoke/group combinations, overlapping ranges, several categories per character) x lexicons",
 DUMMY+"The rules interact (found word, invoke, group, earlier unknown word), so samples miss combinations.",
 [VIT,CD,UD],[("unknown candidates","Lattice::process_unknown_word"),("category lookup","CharacterDefinitions::lookup_categories")],["Tokenizer::tokenize"],["end of the latest unknown-word candidate"])
p("T04","User dictionary words compete alongside system words",
 "With a user dictionary, every user word found in the text is a candidate beside (never instead of) the system words, with the cost and context ids of its row: cost -10000 and context id 0 for a three-column row, the row's own values for a detailed row. A token chosen from the user dictionary is flagged as a user word and carries that row's details in the dictionary kind's layout; without matching user words the result is the same as without a user dictionary.",
 ["inputs","configurations"],"all texts x all pairs of system and user lexicons with equal, overlapping and nested surfaces, for all five dictionary kinds",
 DUMMY+"The user-dictionary tests check only that rows parse, never a segmentation.",
 [VIT,DB+"user_dict.rs",TKN,"lindera-core/src/dictionary.rs"],[("user candidates","Lattice::set_text"),("user rows","UserDictBuilder::build"),("details","UserDictionary::word_details")],["Tokenizer::tokenize","Token::get_details"])
p("T05","Token details belong to the dictionary entry that produced the token",
 "A known token carries exactly the details of a dictionary row whose surface equals the token's text, from the system or the user dictionary as its flag says, and when several rows share the surface, the row whose cost and context ids the chosen path used. A token found in no dictionary carries the single detail UNK and is marked unknown. Reading details repeatedly, or from several tokens in any order, gives the same answer. Details a caller sets on a token (Token::set_details) are what that token and later copies of it give from then on, and no other token; setting none brings the dictionary's details back.",
 ["inputs","configurations","histories"],"all texts x lexicons with homographs, prefixes of one another, empty and multi-column details",
 DUMMY+"Row numbering, offsets and homograph blocks shift with every lexicon; samples cannot show all offsets line up.",
 [TKN,"lindera-core/src/dictionary.rs",PD,"lindera-core/src/word_entry.rs"],[("detail lookup","Dictionary::word_details"),("entry decoding","PrefixDict::prefix"),("lazy cache","Token::get_details")],["Token::get_details","Token.word_id"])
p("T06","Sentences are tokenized independently",
 "A text is cut after every 。, 、, newline and tab and nowhere else, and its tokens are the tokens of each of those sentences tokenized alone, in order, with byte ranges and positions shifted by what came before. No word crosses a cut. A sentence no candidates cover from end to end gives no tokens, and the tokens of the sentences behind it keep their ranges.",
 ["inputs","histories"],"all concatenations of sentences, long after short and short after long, with repeated and adjacent delimiters",
 DUMMY+"Independence relates a run to runs on other texts; no example-based assertion states it.",
 [TOK,VIT],[("sentence loop","Tokenizer::tokenize"),("lattice reuse","Lattice::clear / set_capacity")],["Tokenizer::tokenize"],["lattice reused from sentence to sentence"])
p("T07","Decompose mode adds exactly the configured length penalties",
 "In decompose mode the chosen path is minimal when each word's cost is raised by the configured penalty for its length, measured as UTF-8 bytes divided by three: nothing up to the kanji threshold, then per unit above the kanji threshold for words made only of kanji (U+4E00 to U+9FAF), and per unit above the other threshold for all other words. Normal mode ignores the penalties; the default penalties are 2/3000 for kanji and 7/1700 for others.",
 ["inputs","configurations"],"all texts x lexicons x penalty settings (thresholds 0 to 8, zero and large penalties)",
 DUMMY+"Only a few compound words with default penalties are sampled; the boundary of each threshold is not.",
 ["lindera-core/src/mode.rs",VIT],[("penalty","Penalty::penalty"),("edge length","Edge::num_chars"),("search","Lattice::calculate_path_costs")],["Tokenizer::tokenize"])
p("T08","Results do not depend on history, sharing, cloning or threads",
 "The result of tokenizing or analyzing is a function of configuration and text alone. It is unaffected by earlier calls on the same instance, by other threads using it at the same time, by using a clone or a serialized copy of the dictionaries instead, or by dropping other instances; setting the public fields of an instance to those of another makes it answer like that one, and a clone keeps the mode, dictionaries and every filter with its settings and order.",
 ["schedules","histories"],"all interleavings of calls by several threads over shared instances, clones and clones of clones",
 "The tests make one call per instance, on one thread.",
 [TOK,"lindera-analyzer/src/analyzer.rs",VIT,CF+"../character_filter.rs"],[("per-call state","Tokenizer::tokenize"),("cloning","Analyzer::clone / box_clone")],["Tokenizer::tokenize","Analyzer::analyze","Clone"],["instances, their configuration, calls in flight"])
p("D01","A built system dictionary contains exactly its source rows",
 "After building a system dictionary from its CSV files and loading it, looking up any text finds exactly the rows whose surface is a prefix of it, each with its row's left id, right id, cost and details, in all five dictionary kinds; rows of all CSV files count, whatever their order and the names of the files and directories. UTF-8 files may have a byte order mark, and UTF-16 files with one are read too. For the IPADIC kinds ― and ～ are normalized to — and 〜 in surfaces and details; for CC-CEDICT a row with an unparsable cost or id is left out, for other kinds it is an error.",
 ["inputs","configurations"],"all sets of rows: shared surfaces, nested prefixes, several files, quoting, extreme ids and costs, all kinds",
 DUMMY+"The build tests, if any dictionary could be built, compare nothing with the source rows.",
 [DB+"dict.rs",PD,"lindera-core/src/dictionary.rs","lindera-ipadic-builder/src/ipadic_builder.rs"],[("row sorting and numbering","DictBuilder::build"),("lookup","PrefixDict::prefix / find_surface")],["PrefixDict::prefix","PrefixDict::find_surface","Dictionary::word_details"])
p("D02","Connection costs equal the source matrix",
 "After building and loading, the connection cost from a left word's right-context id to a right word's left-context id equals the value listed for that ordered pair in the matrix source, for rectangular, asymmetric and negative matrices with lines in any order. Pairs not listed cost 32767. A malformed line is reported as an error, never read as another cost.",
 ["inputs"],"all matrix sources: sizes, orders of lines, sparse and full, values over the whole 16-bit range",
 DUMMY+"No test reads a cost back, and the dummy matrix is empty.",
 [DB+"cost_matrix.rs","lindera-core/src/connection.rs"],[("writing","CostMatrixBuilder::build"),("reading","ConnectionCostMatrix::load / cost")],["ConnectionCostMatrix::cost"])
p("D03","Character and unknown-word definitions are compiled faithfully",
 "After building and loading, every character has exactly the categories of the code point ranges that contain it, in order of first mention and without repeats, or DEFAULT if there are none; every category keeps its invoke and group flags, length and name, and its unknown-word entries with their ids and costs. This holds wherever categories and ranges appear in the source, with comments and blank lines ignored. An undefined category or a malformed line is reported as an error.",
 ["inputs"],"all character definition sources: overlapping, adjacent, single-point and boundary ranges, orders of lines, multiple categories",
 "A single test checks the lookup table on one boundary; parsing, merging and category numbering are never checked against a definition.",
 [CD,UD,DB+"chardef.rs",DB+"unk.rs"],[("parse","CharacterDefinitionsBuilder::parse"),("boundaries","LookupTable::eval"),("references","parse_unk")],["CharacterDefinitions::lookup_categories","lookup_definition","UnknownDictionary::lookup_word_ids"])
p("D04","User dictionary sources are validated and survive serialization",
 "A user dictionary CSV is accepted exactly if every row has three columns, or at least the kind's detailed column count with integer cost and ids in range; anything else is reported as an error. The compiled binary file, and the CSV itself, give the same lookups and details, and a CSV without a kind, an unknown extension or an undecodable binary is an error.",
 ["inputs","configurations"],"all CSV files with rows of 1 to 24 columns mixed, integer, non-integer and out-of-range numbers, all five kinds, .csv and .bin",
 "Seven tests try one malformed row each for one kind; none looks anything up in the result or reads a binary back.",
 [DB+"user_dict.rs","lindera-dictionary/src/lib.rs","lindera-core/src/dictionary.rs"],[("row validation","UserDictBuilder::build"),("serialization","build_user_dictionary / UserDictionary::load"),("dispatch","DictionaryLoader::load_user_dictionary_from_config")],["DictionaryLoader::load_user_dictionary_from_config","PrefixDict::find_surface"])
p("D05","Faulty dictionary sources and files give errors, never panics",
 "Building from a source directory with a missing or malformed file, and loading a dictionary from a directory with a missing file, a dict.da of the wrong size, or an undecodable matrix, character definition or unknown-word file, returns an error; it neither panics nor reports success. Repeating the operation after the fault is removed succeeds and gives the same dictionary as if the fault had not happened.",
 ["fault_sequences","crash_points"],"each single fault (missing, empty, truncated, malformed) in each file, in sequences with successful operations, all kinds",
 "The tests build only from complete, well-formed sources.",
 ["lindera-dictionary/src/lib.rs","lindera-ko-dic-builder/src/ko_dic_builder.rs","lindera-cc-cedict-builder/src/cc_cedict_builder.rs",DB+"dict.rs",DB+"cost_matrix.rs"],[("build steps","DictionaryBuilder::build_dictionary"),("load steps","DictionaryLoader::load_dictionary")],["DictionaryBuilder::build_dictionary","DictionaryLoader::load_dictionary"],["files present and valid in source and target directory"])
p("D06","Compression round-trips for every algorithm",
 "Decompressing what was compressed returns the original bytes for every algorithm and every input, including after the compressed value itself is serialized and read back. Corrupt compressed data gives an error or different data, never a panic.",
 ["inputs","configurations"],"all byte strings (empty, runs, random, long) x all four algorithms",
 "One test, one algorithm, one length.",
 ["lindera-compress/src/lib.rs","lindera-decompress/src/lib.rs"],[("encode","compress"),("decode","decompress")],["compress","decompress"])
p("D07","Dictionaries contained in the program equal their sources",
 "A dictionary built into the program by its feature flag, with or without compression, answers every word lookup, connection cost, character category, unknown-word entry, word details and tokenization exactly like the same source built into a directory and loaded from there. Loading by kind gives the dictionary of that kind, never another, and an error if it is not contained; a kind takes precedence over a directory; user dictionaries given as CSV (with a kind) or compiled work with every dictionary; and what one loaded dictionary answers does not depend on which others have been loaded.",
 ["inputs","configurations","histories"],"all sources x five kinds x compressed or not x user dictionaries x orders of loading",
 "Offline the tests see a one-word dummy dictionary, and no test compares a contained dictionary with its source or builds with compression.",
 ["lindera-unidic/src/lib.rs","lindera-ipadic/src/lib.rs","lindera-ipadic-neologd/src/lib.rs","lindera-ko-dic/src/lib.rs","lindera-cc-cedict/src/lib.rs","lindera-dictionary/src/lib.rs","lindera-core/src/connection.rs",DB+"utils.rs"],[("contained data","load_dictionary of each kind's crate"),("dispatch","DictionaryLoader::load_dictionary_from_kind"),("compression","decompress_data / compress_write")],["DictionaryLoader::load_dictionary_from_config","Tokenizer::tokenize"],["contained kinds, loaded dictionaries"])
p("F01","Character filters rewrite the text exactly as configured",
 "The mapping filter scans left to right and at each place replaces the longest configured key that starts there by its value, which may be empty; the regex filter replaces every leftmost non-overlapping match by the replacement (group references expanded); the normalization filter yields the text's NFC, NFD, NFKC or NFKD form. Text not matched is copied unchanged, and replacements are not scanned again.",
 ["inputs","configurations"],"all texts x mapping tables (nested keys, keys that overlap, empty values) x regular expressions of a fragment x four normal forms",
 "The tests try a handful of fixed pairs and never overlapping or nested keys.",
 [CF+"mapping.rs",CF+"regex.rs",CF+"unicode_normalize.rs"],[("longest match","MappingCharacterFilter::apply"),("replacement","RegexCharacterFilter::apply"),("normal forms","UnicodeNormalizeCharacterFilter::apply")],["CharacterFilter::apply"])
p("F02","Iteration marks expand to the character they repeat",
 "A run is a maximal sequence of marks of the kinds that are switched on (kanji: 々; kana: ゝ ゞ ヽ ヾ). In a run of n marks starting at s, the mark at position p is replaced by the original character at p minus the smaller of n and s. For kana marks, a repeated kana of the mark's own script takes its unvoiced form for ゝ and ヽ and its voiced form, where one exists, for ゞ and ヾ; any other character is repeated as it is. Marks of a kind that is switched off, marks with nothing to repeat and all other characters are left unchanged.",
 ["inputs","configurations"],"all texts mixing marks with kana, kanji and other characters, all four settings",
 "The tests try some idiomatic words; runs, mixed marks, starts of text and disabled settings are combinatorial.",
 [CF+"japanese_iteration_mark.rs"],[("run handling","normalize"),("voicing","DAKUON tables")],["CharacterFilter::apply"])
p("F03","Token offsets refer to the original text through any filter chain",
 "After any chain of character filters, each token's byte range lies within the original text, on its character boundaries, with start not after end, and starts and ends never decrease from token to token. An offset outside replaced text maps to the very same character in the original, one at the edge of a replaced piece maps to that edge (text deleted there may fall on either side), and one inside a replaced piece maps into or to the edge of the piece it came from, composed through all filters in reverse order.",
 ["inputs","configurations"],"all texts x chains of zero to three character filters that shorten, lengthen, delete and expand x tokens cut anywhere",
 "The tests check some offsets of one replacement at a time, within one filter, at token edges that happen to fall on replacements.",
 [CF+"../character_filter.rs","lindera-analyzer/src/analyzer.rs",CF+"mapping.rs",CF+"regex.rs"],[("offset map","add_offset_diff / correct_offset"),("composition","Analyzer::analyze")],["Analyzer::analyze","CharacterFilter::apply","correct_offset"],["offset table per filter"])
p("K01","Selecting token filters keep exactly the tokens they should, untouched",
 "The keep-words, stop-words, length, Japanese keep-tags and stop-tags and Korean keep-tags and stop-tags filters output exactly the sub-sequence of tokens that satisfy their configured condition, in order, and every kept token is unchanged in text, byte range, position, position length, word id and details. Words are compared as whole texts, lengths count characters with inclusive bounds, Japanese tags compare the first four details, or, for a token with fewer, its first detail padded with *; Korean tags the first detail.",
 ["inputs","configurations"],"all token sequences x all configurations (empty, duplicates, partial tags, min above max)",
 "Tests run each filter on one or two short token lists with one configuration.",
 [TF+"keep_words.rs",TF+"stop_words.rs",TF+"length.rs",TF+"japanese_keep_tags.rs",TF+"japanese_stop_tags.rs",TF+"korean_keep_tags.rs",TF+"korean_stop_tags.rs"],[("selection","apply of each filter")],["TokenFilter::apply"])
p("K02","Rewriting token filters change token texts as specified and nothing else",
 "Lowercase, uppercase, mapping, kana, katakana-stem, base-form, reading-form and Korean reading-form filters keep the number, order, byte ranges, positions, position lengths, word ids and details of tokens and change only their texts, each token independently of its neighbours. The new text is the case-converted text, the longest-match mapped text, the kana-converted text (ァ to ヶ and ヽ to ヿ against ぁ to ゖ and ゝ to ゟ), the text without a final ー if it is all katakana (U+30A0 to U+30FF) and longer than the minimum, or the token's base form or reading from its details (unchanged for unknown words and when that detail is missing).",
 ["inputs","configurations"],"all token sequences x configurations, texts of any script, missing and short details",
 "Tests run each filter on a few fixed tokens and compare texts only.",
 [TF+"lowercase.rs",TF+"uppercase.rs",TF+"mapping.rs",TF+"japanese_kana.rs",TF+"japanese_katakana_stem.rs",TF+"japanese_base_form.rs",TF+"japanese_reading_form.rs",TF+"korean_reading_form.rs"],[("rewriting","apply of each filter")],["TokenFilter::apply"])
p("K03","Compound-word filter merges exactly the maximal runs of configured tags",
 "Each maximal run of two or more consecutive tokens whose tags are configured becomes one token: text is the concatenation, byte range from the first token's start to the last one's end, position of the first, position length the sum, and as details the configured new tag padded with asterisks to four parts (複合語 if none is configured), followed by asterisks up to the kind's number of details (17 for UniDic, 9 otherwise). All other tokens, including single ones with a configured tag, pass through unchanged in order.",
 ["inputs","configurations"],"all token sequences over matching and non-matching tags, runs at both ends, back to back filters",
 "Two sequences are tested.",
 [TF+"japanese_compound_word.rs"],[("run merging","JapaneseCompoundWordTokenFilter::apply"),("concatenation","concat_token")],["TokenFilter::apply"])
p("K04","Kanji numerals are rewritten to the number they denote",
 "In tokens whose tag is configured (all tokens if no tags are given) each well-formed kanji numeral is replaced by the arabic digits of the number it denotes, whether positional (二〇二四) or with units (十, 百, 千, 万, 億, 兆, …), and no other character, token field or token is changed. Numerals are maximal runs of numeral characters; what an ill-formed run becomes is not specified, but the characters around it stay in place. No token text makes the filter fail.",
 ["inputs","configurations"],"all numerals up to the largest unit, combined with other characters and tags",
 "About a hundred fixed numerals are tested; combinations with zero parts, unit-only parts and adjacent text are not.",
 [TF+"japanese_number.rs"],[("conversion","to_arabic_numerals / adjust_digits"),("selection","JapaneseNumberTokenFilter::apply")],["TokenFilter::apply"])
p("P01","The analyzer runs exactly the configured pipeline in order",
 "Analyzing a text equals applying the configured character filters one after another in order, tokenizing the result, and applying the configured token filters in order, with word ids, positions and details carried through; with no filters it equals plain tokenization with details. Building the pipeline from JSON, from command-line flags or by hand gives the same results, and filter order matters only as the filters themselves define.",
 ["inputs","configurations"],"all texts x pipelines of filters in any order and number, in both configuration forms",
 "Tests use one fixed pipeline; whether order, repetition and carrying-through are right is never compared with the stages.",
 ["lindera-analyzer/src/analyzer.rs","lindera-filter/src/token_filter.rs",CF+"../character_filter.rs","lindera-filter/src/lib.rs"],[("pipeline","Analyzer::analyze"),("construction","Analyzer::from_config / load_from_value / load_from_cli_flag")],["Analyzer::analyze","Analyzer::from_config"])
p("P02","Invalid configuration is rejected, valid configuration is honoured",
 "Loading a filter, tokenizer or analyzer from configuration fails with an error for an unknown kind, a missing or ill-typed required setting, an unknown mode, an unknown or repeated tokenizer setting, a malformed pattern or a dictionary that is neither given nor found, and succeeds otherwise with omitted optional settings at their defaults; a tokenizer configuration that is serialized and read back means the same. It never panics and never silently substitutes another filter or setting.",
 ["configurations"],"all single-setting mutations (absent, wrong type, unknown value, extra) of all filter and tokenizer configurations",
 "Tests load well-formed configurations and a few wrong ones.",
 ["lindera-filter/src/token_filter.rs",CF+"../character_filter.rs","lindera-analyzer/src/analyzer.rs",TOK,"lindera-core/src/mode.rs","lindera-dictionary/src/lib.rs"],[("filter loaders","load_from_value / load_from_cli_flag"),("tokenizer config","TokenizerConfig::deserialize")],["Analyzer::from_config","CharacterFilterLoader","TokenFilterLoader","TokenizerConfig"])
p("P03","The command line reports exactly the library's result",
 "For every input line the tool prints the tokens the library returns for that line without its surrounding white space: one text-tab-details line per token then EOS in mecab format, the token texts separated by single spaces in wakati format (nothing for a line without tokens), or a JSON array of text, details, byte range and word id. Mode, dictionary, user dictionary and filter options take effect as given (a dictionary kind takes precedence over a directory), built dictionaries are usable, and bad options or missing files end in a failure status instead of output, as does input that is not UTF-8 once it is reached.",
 ["inputs","configurations"],"all input files x formats x modes x filter flags x dictionary options",
 "The command-line tool has no tests.",
 ["lindera-cli/src/main.rs"],[("line loop","tokenize"),("formats","mecab_output / wakati_output / json_output"),("building","build")],["stdout and exit status of the lindera binary"])
p("P04","No text makes any operation panic",
 "With any validly configured tokenizer, filter or analyzer, every text and every token sequence it can produce is processed to completion with a result or an error: no panic, overflow, out-of-range slice or endless loop. This includes empty text, unassigned and supplementary characters, combining sequences, control characters and text longer than any seen before.",
 ["inputs","configurations"],"all Unicode texts x all filters and modes",
 "Tests use ordinary text.",
 [VIT,TOK,CF+"../character_filter.rs",TF+"../token_filter.rs","lindera-analyzer/src/analyzer.rs"],[("all stages","Analyzer::analyze")],["Analyzer::analyze","Tokenizer::tokenize","TokenFilter::apply","CharacterFilter::apply"])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))

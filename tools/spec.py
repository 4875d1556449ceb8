"""The properties, in one place; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique='', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


AK = 'aksharamukha/'
TRUST = ('The interpreter (engine/) is trusted: its models of str, re, list and dict operations were written from their '
         'documentation. Where it cannot decide, it stays quiet, and the evidence counts how often.')

prop('C01', 'Converting any text between any two supported scripts returns a text',
     'For every ordered pair of supported scripts, every text and either nativization setting, a conversion without '
     'further options returns a text and raises nothing, whatever characters, digits, punctuation, line breaks or '
     'repetitions the text contains, and also for the empty text. Outside are only the Tamil to IPA conversion, which is '
     'a web service, numbers of more than 15 digits, and the limits of memory and of the third-party Japanese dictionary.',
     ['inputs', 'configurations'], 'all texts, all ordered pairs of supported script names, nativization on and off',
     'The tests convert a few sample texts, nearly all from Devanagari or IAST; there are about 34,000 pairs and '
     'unboundedly many texts, and most failures need a rare character, an empty segment or an untested source.',
     [AK + f for f in ('transliterate.py', 'Convert.py', 'ConvertFix.py', 'PreProcess.py', 'PostProcess.py', 'PostOptions.py',
                       'gimeltra.py', 'GeneralMap.py')],
     [('conversion entry', AK + 'transliterate.py: convert'), ('core replacement loop', AK + 'Convert.py: convertScript'),
      ('per-script rules', AK + 'ConvertFix.py: Fix*'), ('Semitic engine', AK + 'gimeltra.py: Transliterator')],
     'abstract interpretation of the source over the set of all texts',
     'Every pair is interpreted once for all texts (the quick run does all nativized pairs and a covering set of plain '
     'ones). Reported: exceptions on every text, text-dependent exceptions that no text-dependent condition stands '
     'before, malformed patterns, names read before they are set, results that are no text, reads past the end of a '
     'loop. ' + TRUST)

prop('C02', 'Every pre- and post-option turns any text into a text',
     'Each function of PreProcess and PostProcess that can be asked for by name as an option (it takes the text alone) exists '
     'under its name, returns a text for every text it is given, raises nothing and uses only well-formed patterns; and a '
     'conversion with the option set returns a text for every text, with any source and target script. The options handled by '
     'name inside the conversion (siddhammukta, LaoNative, indicDandas, romanFullStop, BengaliRaBa, ranjanalantsa and so on) are '
     'included, with every script on either side.',
     ['inputs', 'configurations'], 'all texts, all option names, all scripts on either side of the conversion',
     'There are over 400 options; the tests set a handful, with one text each, and an option that fails does so only when '
     'it is asked for.',
     [AK + f for f in ('PreProcess.py', 'PostProcess.py', 'transliterate.py', 'ConvertFix.py')],
     [('option dispatch', AK + 'transliterate.py: convert, for options in preoptions / postoptions'),
      ('option functions', AK + 'PreProcess.py and PostProcess.py: functions of the text')],
     'abstract interpretation of the source over the set of all texts',
     'Names are compared with the list in data/options.json; every option is interpreted alone and in conversions (quick: with '
     'generic and name-related scripts, special options with all scripts). ' + TRUST)

prop('C04', 'Earlier calls do not influence later ones; arguments stay unchanged',
     'A conversion, a detection or an option gives a result that depends only on its arguments: no call changes any object that '
     'outlives it. In particular the mapping tables, script lists, the data of the Semitic engine, cached results, default '
     'arguments and module variables are the same after any call as before, the option lists the caller passes in are left '
     'unchanged, no one-shot iterator is shared between calls, and whatever is remembered from one call for another is remembered '
     'under all the arguments it depends on.',
     ['histories'], 'all sequences of calls of the public functions, with all texts',
     'Each test is one call in a fresh or fixed order; a leak shows only for a particular earlier call followed by another.',
     [AK + f for f in ('transliterate.py', 'Convert.py', 'ConvertFix.py', 'PreProcess.py', 'PostProcess.py', 'PostOptions.py',
                       'gimeltra.py', 'GeneralMap.py')],
     [('mapping tables handed out by reference', AK + 'GeneralMap.py: CrunchSymbols, CrunchList'),
      ('option lists', AK + 'transliterate.py: convert'), ('cached data files', AK + 'transliterate.py: _load_data'),
      ('Semitic engine data', AK + 'gimeltra.py: Transliterator')],
     'ownership and mutation analysis by abstract interpretation of the source',
     'Every module-level object, default argument, cached result and caller argument carries its owner through all assignments; '
     'any change of an owned object, assignment to a global, or use of a shared iterator is reported, except caches whose key '
     'holds every parameter read and first-use initialisation independent of the arguments. ' + TRUST)

prop('C05', 'Converting a text has no effect besides its result',
     'Importing the package, converting, detecting a script and applying options print nothing, log no warnings or errors, write, '
     'rename or delete no file, read no file but the package\'s own data, start no process, use no network and change no setting '
     'of the interpreter, of the environment or of another library. Outside are the warnings module\'s notices about unsupported or font-hacked '
     'scripts and ambiguous codes, the web service for Tamil to IPA, and the file converter of transliterate_file.',
     ['inputs', 'configurations'], 'all texts, all pairs of scripts, all options, all ways of calling',
     'Tests compare results; output or side effects on some rare branch go unnoticed.',
     [AK + f for f in ('transliterate.py', 'Convert.py', 'ConvertFix.py', 'PreProcess.py', 'PostProcess.py', 'gimeltra.py', 'GeneralMap.py')],
     [('entry points', AK + 'transliterate.py: process, convert, auto_detect'), ('data files', AK + 'transliterate.py: _load_data')],
     'effect analysis by abstract interpretation of the source',
     'Every call that can have an outside effect is an event wherever the interpreter reaches it, on any branch. ' + TRUST)

prop('C06', 'The same call gives the same result in every process and at any time',
     'The result of a conversion, a detection or an option is a function of its arguments alone: it does not depend on the order '
     'in which a set of texts happens to be stored (which changes from process to process), on hash() or id(), on random '
     'numbers, the time, the environment, the locale\'s text encoding, the working directory, directory listings or threads.',
     ['schedules', 'inputs'], 'all texts, pairs of scripts and options; all hash seeds, environments and times',
     'A test process has one hash seed, one locale and one environment.',
     [AK + f for f in ('transliterate.py', 'Convert.py', 'ConvertFix.py', 'PreProcess.py', 'PostProcess.py', 'gimeltra.py', 'GeneralMap.py')],
     [('replacement order', AK + 'Convert.py: convertScript'), ('rule tables of the Semitic engine', AK + 'gimeltra.py: _from_latin'),
      ('data files', AK + 'transliterate.py: _load_data')],
     'nondeterminism-source analysis by abstract interpretation of the source',
     'Reported: going through a set of texts where the order can show (membership tests, any/all, sorting and taking characters '
     'away are recognised as safe), and reads of ambient state. ' + TRUST)

ALLPY = [AK + f for f in ('transliterate.py', 'Convert.py', 'ConvertFix.py', 'PreProcess.py', 'PostProcess.py', 'PostOptions.py',
                          'gimeltra.py', 'GeneralMap.py')]

prop('C17', 'Line breaks and characters that neither script uses stay in the text',
     'Whatever the pair of scripts, the options and the way of calling, a conversion takes away none of the characters that mean '
     'nothing in the two scripts: line breaks (LF, CR, CR LF, U+2028, U+2029, U+0085) and other control, format and space characters, letters '
     'of other writing systems such as Chinese, emoji, private-use characters, typographic punctuation, currency and mathematical '
     'symbols stand in the result wherever they stood in the text, whatever stands around them and however often they are repeated; so '
     'do the ASCII signs that neither script\'s notation uses. Outside are Japanese sources (which are segmented into words), '
     'Tamil to IPA, combining marks, the signs a script or scheme uses as its own notation or leaves out by its own convention '
     '(such as spaces in Tibetan and Khojki; all listed in data/kept.json) and, as known defects, the five placeholder characters.',
     ['inputs', 'configurations'], 'all texts holding such characters, all pairs of scripts, options and entry points',
     'The tests\' texts are a few words of letters; a character is lost only in particular surroundings and scripts.',
     ALLPY,
     [('cleaning of the input', AK + 'PreProcess.py: PreProcess'), ('core replacement loop', AK + 'Convert.py: convertScript'),
      ('per-script rules', AK + 'ConvertFix.py: Fix*'), ('clean-up of the output', AK + 'PostProcess.py: default'),
      ('Semitic engine', AK + 'gimeltra.py: Transliterator.tr')],
     'dataflow (must-survive) analysis by abstract interpretation of the source',
     'One token per foreign character is followed through every operation on the text; reported is an operation after which the '
     'character may be gone. Characters some scripts treat as theirs are frozen in data/kept.json per pair. ' + TRUST)

prop('C09', 'No source letters, foreign letters or internal markers in the result',
     'A text written in the letters of the source script, with ASCII punctuation and digits, is converted completely: for every '
     'pair of scripts, with or without nativization and with every option, the result holds only characters that belong to the '
     'target script or are neutral (ASCII, spaces, joiners, dandas). No letter, sign or mark of the source, none of another '
     'script, and none of the placeholders used while converting is left over in any context (at the start or end of a word, '
     'before or after a mark, doubled, next to a digit or a space). Letters which a target has no way to write and which are '
     'therefore kept are listed in data/repertoire.json (3.7 % of the combinations of a source letter and a target). '
     'Japanese targets are outside.',
     ['inputs', 'configurations'], 'all texts of a source script\'s letters, all pairs of scripts, all options',
     'Tests convert a few words; a rare letter or an unusual neighbour takes a path none of them takes.',
     ALLPY,
     [('letter tables', AK + 'GeneralMap.py: CrunchList and the script maps'), ('core replacement loop', AK + 'Convert.py: convertScript'),
      ('per-script rules', AK + 'ConvertFix.py: Fix*'), ('options', AK + 'PreProcess.py and PostProcess.py')],
     'value (repertoire) analysis by abstract interpretation of the source',
     'For each conversion the set of characters its result can hold is computed through every operation, for all texts of the '
     'source\'s letters at once, and compared with the repertoire of the target. A may-analysis: the frozen leftovers '
     'contain combinations that cannot occur, where a new leftover of the same character would not be seen. ' + TRUST)

prop('C10', 'Digits keep their value in every conversion',
     'Every decimal digit of a text, in ASCII or in the digits of the source script, stands in the result as a digit of the same '
     'value, of the target script or ASCII: no digit is changed into another, dropped, or taken for a letter, and no letter or '
     'sign of the source becomes a digit, whatever stands next to it, with or without nativization and with every option about numerals. '
     'Outside are numerals that are not positional (Kharoshthi, Old Persian), scripts without digits of their own where the '
     'notation uses the same signs for letters (such as 2 and 3 in Harvard-Kyoto, 0, 1, 2 and 4 in SLP1), Tolong Siki, and Japanese targets.',
     ['inputs', 'configurations'], 'all texts of source letters and digits, all pairs of scripts and the numeral options',
     'The tests have few texts with digits, all Sanskrit; a digit goes wrong only in one script or next to one letter.',
     ALLPY,
     [('digit tables', AK + 'GeneralMap.py: Numerals'), ('core replacement loop', AK + 'Convert.py: convertScript'),
      ('numeral options', AK + 'PostProcess.py: retainIndicNumerals, romanNumerals and the like, and their use in transliterate.py: convert')],
     'value analysis by abstract interpretation of the source',
     'Texts of all letters of the source with some of its digits are interpreted, the subsets chosen so that every digit is '
     'told apart from every other; the digits of the result must be those and all of those. ' + TRUST)

prop('C12', 'Each letter is converted to its own counterpart',
     'In every conversion each character of the result stands for the letters and signs of the source it belongs to and for no others: '
     'the correspondence of consonants, vowels, vowel signs and marks between two scripts is that of the published '
     'tables, in every position and context, with and without nativization, and under each option; no letter is exchanged with, '
     'merged into or split from another beyond the mergers the target\'s orthography requires, and every counterpart is '
     'reached. Outside are Japanese targets and Tamil to IPA.',
     ['inputs', 'configurations'], 'all texts of a source script\'s letters, all pairs of scripts, all options',
     'The tests\' texts are Sanskrit; letters of other languages and rare clusters never occur in them, in 180 scripts.',
     ALLPY,
     [('letter tables', AK + 'GeneralMap.py: CrunchList and the script maps'), ('core replacement loop', AK + 'Convert.py: convertScript'),
      ('per-script rules', AK + 'ConvertFix.py: Fix*'), ('Semitic engine', AK + 'gimeltra.py: Transliterator'),
      ('options', AK + 'PreProcess.py and PostProcess.py')],
     'provenance (value) analysis by abstract interpretation of the source, against a frozen correspondence',
     'The source letters are coded into sixteen groups; per group the set of characters the result can hold is computed, which '
     'gives for each character of the result the groups it can come from, compared with data/counterparts.json in both '
     'directions. Differences of order, position or number of characters are not seen. ' + TRUST)

prop('C13', 'Options are applied in order, once each, around the conversion',
     'A conversion sends every text through the pre-options in the order given, then the conversion between the two scripts, then the '
     'nativization if it is on and only then, then the post-options in the order given, each exactly once, and then the final '
     'clean-up; nothing but the text so treated goes into the result. process and its variants for script codes, language codes, language names and '
     'autodetection call the conversion exactly once, with the text, the nativization setting and the options they were given; names of '
     'scripts (Indic and Latin) and of options are found in any combination of capitals and small letters, unknown options are passed over without '
     'disturbing the others, and the conversion uses the tables of the two scripts asked for. Outside are conversions that go by '
     'way of another scheme (ISO 233, ISO 259, SBL, DMG and LoC for Semitic scripts), which repeat the options; with autodetection the pre-options are '
     'the detected ones.',
     ['inputs', 'configurations'], 'all texts, pairs of scripts, nativization settings and lists of options; all entry points',
     'The tests set at most one or two options, by their exact names, through one entry point.',
     [AK + 'transliterate.py', AK + 'Convert.py', AK + 'PostOptions.py'],
     [('order of the steps', AK + 'transliterate.py: convert'), ('names and defaults', AK + 'transliterate.py: convert_default, process_default'),
      ('codes', AK + 'transliterate.py: process_script_tag, process_lang_tag, process_lang_name')],
     'typestate and dataflow analysis by abstract interpretation of the source',
     'Every step is replaced by a marker: a token for having certainly, a private character for having possibly gone through it. All pairs with '
     'rotating options; departures that follow from the definition of a pair or option are frozen in data/routes.json. ' + TRUST)

prop('C20', 'Where nothing is to be converted the text comes back unchanged',
     'A conversion from a script to itself with nativization off and no options, and every conversion to the target "Ignore" or to the empty target, '
     'gives back exactly the text it was given, for every script, every text (also one in decomposed form, with signs of '
     'other scripts, blanks at the ends, line breaks or placeholders in it) and every entry point.',
     ['inputs'], 'all texts, all scripts, convert and process',
     'The tests do it for a few scripts and clean texts.',
     [AK + 'transliterate.py'],
     [('conversion entry', AK + 'transliterate.py: convert'), ('names and defaults', AK + 'transliterate.py: convert_default, process_default')],
     'dataflow (identity) analysis by abstract interpretation of the source',
     'The result must be the very value that was passed in or, failing that, one that keeps each of the script\'s letters and of a '
     'set of signs and can hold every character. ' + TRUST)

prop('C14', 'Script and language codes stand for the scripts they are listed with',
     'With param script_code, each ISO 15924 code of the package\'s list of scripts, and with param lang_code each language code of it, wherever in a '
     'script\'s list it stands and in any combination of capitals and small letters, on the source side and on the target side alike, means the script '
     'it is listed with, the most used one where there are several; a hyphenated code (ur-Arab, khb-Lana, latn-HK, la-IAST, sa-Gran, pli-Thai) means '
     'exactly that script or romanization; Latn, en and la mean ISO 15919, and sa and pi alone Devanagari. A code that is not '
     'listed, or a language with a script it is not listed for, is refused with an exception that names the code, and nothing is converted.',
     ['inputs', 'configurations'], 'all listed script codes, language codes and their combinations on either side; codes that are not listed',
     'The tests use a few of the 850 codes, as sources, in their usual spelling.',
     [AK + 'transliterate.py', AK + 'yaml/aksharamukha-scripts.yaml', AK + 'yaml/wikitra2-data.yaml'],
     [('script codes', AK + 'transliterate.py: process_script_tag'), ('language codes', AK + 'transliterate.py: process_lang_tag')],
     'constant propagation over the source and its data files',
     'The text is arbitrary, the codes are constants; the scripts handed to convert are compared with data/codes.json. Unlisted codes are a sample of the '
     'ways to be unlisted. ' + TRUST)

prop('C03', 'A text in one script is detected as that script',
     'Automatic detection takes a text whose letters all belong to one supported script, whatever blanks, punctuation and common digits stand between them, for a text of '
     'that script, in the plain and in the plugin mode; a text that also holds a letter which only one member of a family uses (Assamese among Bengali, Lao '
     'Pali among Lao, Mon, Shan, Khamti and Tai Laing among Burmese, Persian, Urdu and Shahmukhi among Arabic, the Syriac vowel signs, the romanizations by '
     'their diacritics) is detected as that member. It never gives a name that no conversion knows, raises nothing, and finds the pre-options that the '
     'spelling of a Thai, Lao or Urdu text needs. Outside are texts that mix scripts, where the more frequent one is taken, and scripts without letters of their own.',
     ['inputs'], 'all texts over the letters of one script and the shared signs, for each script, in both modes',
     'There are unboundedly many texts, and the sample texts are long and clean: short lines, numbered lines and rare letters go wrong first.',
     [AK + 'transliterate.py', AK + 'gimeltra.py'],
     [('detection', AK + 'transliterate.py: auto_detect'), ('pre-options', AK + 'transliterate.py: detect_preoptions'),
      ('script codes', AK + 'gimeltra.py: auto_script')],
     'abstract interpretation of the source with one case per character',
     'The detection functions are interpreted for all texts over a set of letters, of which at least one certainly occurs; loops over the text go through each character '
     'the text can hold as a case of its own, counts are abstracted to nought or more and one or more. The set of possible answers is compared with data/detect.json. ' + TRUST)

prop('C16', 'File conversion converts the text of a file and nothing else',
     'Converting a text file, an HTML file or a Word document sends every text of it that a reader sees through the conversion, exactly once, in its '
     'place, with the two scripts, the nativization setting and the pre- and post-options that were given, and writes the results and everything else (tags, '
     'attributes, scripts, style sheets, comments, the document type, pictures and all other parts of the document, blanks and line breaks) unchanged into the '
     'new file: in a Word document the body, tables, notes, headers, footers and drawings alike, in HTML with no blanks '
     'put into words. The source file is left as it was, files are read and written as UTF-8, the kind of a file is told by its extension alone, and a kind that is not supported is refused.',
     ['inputs', 'configurations'], 'all texts in files of the three kinds, all documents made of the kinds of nodes named, all settings',
     'No test converts a file.',
     [AK + 'transliterate_file.py'],
     [('kinds of files', AK + 'transliterate_file.py: process'), ('Word documents', AK + 'transliterate_file.py: convert_docx'),
      ('HTML', AK + 'transliterate_file.py: convert_html'), ('plain text', AK + 'transliterate_file.py: convert_txt')],
     'dataflow analysis with tokens, by abstract interpretation of the source over models of the file, zip, XML and HTML libraries',
     'A document is a finite set of representative nodes, each with a text of its own token; the conversion turns the token into that of the result. The library models are '
     'trusted. The runs of a Word document are taken one by one; a word that is split over two runs is converted in two pieces. ' + TRUST)

prop('C18', 'Words in Latin, Greek or Cyrillic letters stay as they are',
     'In a text of a script not written in Latin letters, every Latin letter from a to z and A to Z, and letters such as \u00df, \u0153, \u00f8, \u00fe, \u03a9, \u03bb, \u03c8, \u044f, \u0436 and \u0429, come '
     'through a conversion to any other such script unchanged, with any nativization setting and any option. Outside are Japanese sources, letters followed by combining marks, '
     'IPA, the internal schemes, letters that a script or option uses itself (m after a backslash is the notation of Vedic nasals for the alphabets, j and m in the simplified Balinese and '
     'Javanese spellings), and the notations in brackets.',
     ['inputs', 'configurations'], 'all texts, all pairs of scripts neither of which is a romanization, all options',
     'The sample texts are in one script only; names, abbreviations and numbers of verses in Latin letters stand in many real texts.',
     [AK + f for f in ('transliterate.py', 'Convert.py', 'ConvertFix.py', 'PreProcess.py', 'PostProcess.py', 'PostOptions.py', 'gimeltra.py')],
     [('protection of Latin letters', AK + 'PreProcess.py: retainLatin'), ('conversion entry', AK + 'transliterate.py: convert'),
      ('Semitic engine', AK + 'gimeltra.py: Transliterator')],
     'taint analysis by abstract interpretation of the source, one token per letter',
     'An operation that can take a letter away ends its token, one that puts another tracked character in its place hands it on; a letter whose token is missing at the end is reported '
     'with the operation that ended it. Letters that a script or option uses itself are listed in data/latin.json. ' + TRUST)

prop('C21', 'A conversion of a text of ordinary length always comes to an end',
     'No conversion and no option takes a time that grows exponentially with the text, or never ends: no regular expression that is applied to a text can match the '
     'same run of characters in exponentially many ways before it fails, every loop over a text comes to its end, and no replacement is repeated that '
     'can go on for ever. Time that grows with a power of the length is outside.',
     ['inputs'], 'all texts, all conversions and options',
     'The sample texts have no long runs: a stack of twenty letters, a row of blanks or an odd sign at the wrong place never occurs in them.',
     [AK + f for f in ('Convert.py', 'ConvertFix.py', 'PreProcess.py', 'PostProcess.py', 'PostOptions.py', 'GeneralMap.py', 'gimeltra.py', 'transliterate.py')],
     [('per-script rules', AK + 'ConvertFix.py: Fix*'), ('options', AK + 'PreProcess.py and PostProcess.py'),
      ('core replacement loop', AK + 'Convert.py: convertScript')],
     'abstract interpretation of the source; ambiguity of the automata of its regular expressions; loop rules',
     'Every regular expression that is applied to a text in the interpreted conversions is put together as the code does, and its position automaton is searched for a state that the '
     'same text leads back to in two ways, with a text after it on which the match fails. while loops are reported when a turn can leave all that the condition '
     'speaks of unchanged, or when their replacements give back what they take; for loops when they lengthen the list they go through. ' + TRUST)

prop('C22', 'The rules of both scripts are applied in full, and no failure in them is hidden',
     'In every conversion the rules of the target script are applied to the result, and the rules for reading the source script to the text, wherever such rules exist and whatever the '
     'other script is; and they are carried out to their end for every text: an error that occurs inside them never is taken for "this script has no rules", '
     'which would silently leave out the rest of the conversion.',
     ['inputs', 'configurations'], 'all texts, all pairs of scripts, all options',
     'The rules are looked up by a name put together at run time, within handlers that drop AttributeError and KeyError: a slip that occurs only '
     'for some texts or scripts gives a result that looks plausible, and no error.',
     [AK + f for f in ('Convert.py', 'ConvertFix.py', 'transliterate.py')],
     [('rules for reading', AK + 'Convert.py: convertScript'), ('rules for writing', AK + 'ConvertFix.py: FixIndicOutput, FixSemiticOutput'),
      ('Semitic engine', AK + 'gimeltra.py: Transliterator')],
     'interprocedural exception analysis and call reachability, by abstract interpretation of the source',
     'Which rules are called, and in which direction, is compared with data/rules.json for the covering set of pairs (thorough: all). Exceptions that can arise in a called function, '
     'and that no condition there speaks about, are reported when a handler further out swallows them; the lookup of rules that do not exist is not. ' + TRUST)

prop('C11', 'Converting back gives the original text',
     'For the pairs of scripts between which no letter is lost, a text converted to the other script and back again, without nativization, is the original text.',
     ['inputs'], 'all texts over the letters of the source script, all lossless pairs',
     'The tests convert three sample texts back and forth.',
     [AK + f for f in ('Convert.py', 'ConvertFix.py', 'GeneralMap.py')],
     [('core replacement loop', AK + 'Convert.py: convertScript'), ('per-script rules', AK + 'ConvertFix.py: Fix*')],
     na='A conversion is a composition of hundreds of ordered replacements whose results feed one another; that one composition undoes another is a relation '
        'between strings, of which the set-of-characters abstraction keeps nothing. Deciding it needs the replacements to be run (or solved for), which is another '
        'technique. What static analysis can say of it is claimed separately: each letter goes to its counterpart (C09, C12), digits (C10), foreign characters (C17, C18).')

prop('C23', 'Vowel signs, conjuncts and marks stand in the order the script demands',
     'In a converted text the vowel signs, subjoined letters, repha and other marks stand where the orthography of the target script puts them.',
     ['inputs'], 'all texts, all target scripts',
     'The sample texts are Sanskrit and hold few of the possible clusters.',
     [AK + f for f in ('ConvertFix.py', 'PostProcess.py', 'PreProcess.py')],
     [('per-script rules', AK + 'ConvertFix.py: Fix*')],
     na='The order is produced by regular expressions with back references and look-arounds applied one after the other; no specification of it exists apart from that code, '
        'and the abstraction (which characters can occur) forgets order. A static check could only compare the code with itself.')

prop('C24', 'The time of a conversion grows moderately with the text',
     'The time a conversion takes grows no faster than with a small power of the length of the text.',
     ['inputs'], 'all texts',
     'All sample texts are short.',
     [AK + f for f in ('Convert.py', 'ConvertFix.py', 'PreProcess.py', 'PostProcess.py')],
     [('core replacement loop', AK + 'Convert.py: convertScript')],
     na='Exponential growth is decided under C21. For polynomial growth there is no bound in the code or its documentation to hold it to: many of its expressions are '
        'quadratic on contrived texts, and a sound bound on the whole composition is out of reach of a static argument here.')

prop('C25', 'Of a text in several scripts the most frequent one is detected',
     'Automatic detection of a text that mixes letters of several scripts takes the script most of its letters belong to.',
     ['inputs'], 'all texts',
     'The sample texts are in one script.',
     [AK + 'transliterate.py'], [('detection', AK + 'transliterate.py: auto_detect')],
     na='It depends on comparing counts of letters, which no bound relates to anything in the source; the analysis abstracts counts to nought, nought or more, and one or more.')

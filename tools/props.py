# -*- coding: utf-8 -*-
def P(id, title, statement, over, qtext, why, files, mech, technique, level_note, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': me, 'where': w} for n, me, w in state]
    if observe:
        a['observe_at'] = observe
    return dict(id=id, title=title, statement=' '.join(statement.split()),
                quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=a,
                technique=technique, level_note=level_note)


I, H, C = 'inputs', 'histories', 'configurations'
NOTE = ('Held on the executions driven by the seeded workload (counts in evidence); says nothing about inputs never '
        'generated. Trusts the reference model in /verif/checks and the Python runtime. ')

PROPS = [
    P('C01', 'Hangul syllables decompose and compose losslessly; character classes exact',
      '''Splitting any precomposed modern Hangul syllable gives its (initial, vowel, final-or-blank) letters and putting any
      legal triple of letters together gives exactly the syllable Unicode defines for it, so the two operations are mutual
      inverses; a lone consonant or vowel letter (U+3131-U+3163) splits into itself plus blanks and every other character
      has no decomposition. The predicates Korean / complete syllable / consonant / vowel / digit / English / punctuation
      answer true for exactly the characters of their class (Hangul ranges, ASCII 0-9, ASCII letters, the seven marks
      ! " ' , . ? `) and false for every other character.''',
      [I], 'every Unicode scalar value; every legal letter triple (enumerated exhaustively on each run)',
      'The tests print decompositions of a handful of characters; the claim is about all 11,172 syllables and all code points.',
      ['soynlp/hangle/_hangle.py'],
      [('compose', 'soynlp/hangle/_hangle.py:compose'), ('decompose', 'soynlp/hangle/_hangle.py:decompose')],
      'exhaustive execution against the Unicode NFD tables as oracle',
      'Exhaustive over code points and triples; trusts unicodedata normalization tables.'),
    P('C02', 'Edit distances equal the true minimum edit cost and obey metric laws',
      '''The edit distance between two strings is the least total cost of single-character insertions and deletions (1 each)
      and substitutions (0 for equal characters, otherwise the caller's cost for that ordered pair - character of the first
      string, character of the second - when one is supplied, else 1) that turns the first string into the second, whichever
      string is longer. The letter-level distance is the same minimum with a substitution between two Korean characters
      costing one third of the edit distance of their letter triples. Both are zero exactly for identical strings, symmetric,
      satisfy the triangle inequality, and lie between the length difference and the longer length when no custom costs are
      given.''',
      [I, C], 'all pairs/triples of strings over Hangul, lone letters and other characters; all custom substitution costs in [0, 2]',
      'The tests print a few distances of hand-picked pairs; none uses a custom cost with the shorter string first.',
      ['soynlp/hangle/_distance.py'],
      [('levenshtein', 'soynlp/hangle/_distance.py:levenshtein'), ('jamo_levenshtein', 'soynlp/hangle/_distance.py:jamo_levenshtein')],
      'reference-model monitor (memoised recursive minimum edit cost) + metric-law monitor over generated triples', NOTE),
    P('C03', 'Cosine and Jaccard string distances match their definitions and ranges',
      '''Jaccard distance is 1 minus the ratio of shared to total distinct units and cosine distance is 1 minus the cosine of
      the unit-count vectors, for the default character units and for any unit function the caller supplies. Both are
      symmetric, stay within [0, 1] for non-empty strings (0 for strings with proportional unit counts / equal unit sets,
      1 for strings sharing no unit), and an empty string is at the documented maximum (2 for cosine, 1 for Jaccard) from
      everything.''',
      [I, C], 'all pairs of strings and all unit functions (characters, character n-grams, words)',
      'The tests print two distances and assert nothing about ranges, symmetry or caller-supplied units.',
      ['soynlp/hangle/_distance.py'],
      [('cosine_distance', 'soynlp/hangle/_distance.py:cosine_distance'), ('jaccard_distance', 'soynlp/hangle/_distance.py:jaccard_distance')],
      'reference-model monitor (exact rational set/vector arithmetic)', NOTE),
    P('C04', 'Hangul one-hot encoding is decodable and well-formed for any text',
      '''Encoding any text as letter indices and decoding it back gives the text reduced to Hangul, digits and single spaces,
      with lone letters preserved. Each remaining character is encoded as exactly one index (space, digit, lone letter) or
      exactly three (initial, vowel, final, each inside its own block), every index lies inside the 80 dimensions, and the
      matrix form is the 0/1 indicator of the same indices row by row; out-of-block triples are rejected on decoding.''',
      [I], 'all strings, including every syllable, every lone letter, digits, symbols and exotic whitespace',
      'No test encodes anything; the guarantee covers all syllables and all characters.',
      ['soynlp/hangle/_hangle.py'],
      [('ConvolutionHangleEncoder', 'soynlp/hangle/_hangle.py:ConvolutionHangleEncoder')],
      'round-trip monitor with independent index tables; exhaustive over syllables and lone letters', NOTE),
    P('C05', 'Text filters keep exactly the permitted characters, in order, once spaced',
      '''Each character-filtering normalizer keeps exactly the characters its options permit (Hangul syllables and letters
      U+3131-U+3163 always; English letters, digits, punctuation, bracket symbols as selected; quotes ' and " in the general
      text filter), in their original order, turns every other character into a separator, and leaves single spaces between
      and none around the remaining pieces; applying it again changes nothing (the deprecated filter's repeat option first turns
      runs of four or more equal letters or digits into that many). The sentence cleaner used for word graphs
      additionally drops brackets, cuts every word right after its last Hangul letter and drops words without one, and the
      single-word form of that cut returns the longest prefix ending in Hangul.''',
      [I, C], 'all strings x all option combinations',
      'The tests never assert on normalizer output; a filter must be right for every character and option combination.',
      ['soynlp/normalizer/_normalizer.py', 'soynlp/hangle/_hangle.py'],
      [('normalize / only_hangle / only_hangle_number / only_text / normalize_sent_for_lrgraph / remain_hangle_on_last', 'soynlp/normalizer/_normalizer.py'),
       ('deprecated normalize', 'soynlp/hangle/_hangle.py:normalize')],
      'reference-model monitor (per-character class table) + idempotence monitor; every BMP character probed', NOTE),
    P('C06', 'Repeat and emoticon normalization shorten runs without losing letters',
      '''With shortening disabled, emoticon normalization of any text leaves its sequence of Hangul letters and other characters
      unchanged (whitespace collapsing aside): it only splits a syllable standing next to a lone copy of its own letters (so
      ㅋ쿠ㅜ becomes ㅋㅋㅜㅜ and 앜ㅋ becomes 아ㅋㅋ) and never drops a character. With a limit k of at least 1, repeat normalization
      shortens each run of three or more equal letters/digits to min(k, run length), leaves every other run and character
      alone, never lengthens the text, collapses and trims whitespace, and is idempotent; emoticon normalization with a limit
      is that shortening applied to the split text. The tokenizer's own normalizer works word by word: it splits a syllable
      before a lone consonant equal to its final, or when open before its own vowel, and then cuts groups of four to one equal
      characters repeated four or more times to k copies, longer groups first, with no other letter lost.''',
      [I, C], 'all strings, all limits',
      'Tests do not exercise emoticon text; the lost-letter cases depend on neighbouring characters.',
      ['soynlp/normalizer/_normalizer.py', 'soynlp/tokenizer/_normalizer.py'],
      [('emoticon_normalize', 'soynlp/normalizer/_normalizer.py:emoticon_normalize'),
       ('repeat_normalize', 'soynlp/normalizer/_normalizer.py:repeat_normalize'),
       ('tokenizer normalize', 'soynlp/tokenizer/_normalizer.py:normalize')],
      'conservation monitor (letter sequence in = out) + run-length reference model', NOTE),
    P('C07', 'Regex tokenizer partitions text exactly at script boundaries',
      '''The tokens of any text, concatenated, are the text with its whitespace removed, in order, and no token spans whitespace
      or is empty. No token mixes Hangul syllables, lone consonants, lone vowels, Latin letters, digits and other symbols - except
      that a number keeps its sign and decimal point and an English word its possessive 's in one token - and a maximal run
      of characters of one of those letter or digit classes is never split across tokens. The nested result, flattened, equals the flat one.''',
      [I], 'all strings',
      'The test tokenizes one sentence.',
      ['soynlp/tokenizer/_tokenizer.py'],
      [('RegexTokenizer', 'soynlp/tokenizer/_tokenizer.py:RegexTokenizer')],
      'conservation monitor + script-run reference segmentation', NOTE),
    P('C08', 'L tokenizer splits every word into the best-scoring left part and the rest',
      '''Every whitespace-delimited word is split into a left part and a (possibly empty) right part that concatenate to it, in
      sentence order; words of one or two characters stay whole. For longer words the left part (two or more characters) has
      the highest score among the word's prefixes, unknown prefixes counting the default score, the longest one on ties; with
      a positive tolerance it is the longest prefix whose score is within the tolerance of the best. Asking to drop right parts
      returns exactly the left parts, and the flat form is the nested form without empty parts.''',
      [I, C], 'all sentences x score tables x tolerance x output options',
      'The test checks two sentences with one score table.',
      ['soynlp/tokenizer/_tokenizer.py'],
      [('LTokenizer', 'soynlp/tokenizer/_tokenizer.py:LTokenizer')],
      'reference-model monitor over generated score tables with deliberate ties', NOTE),
    P('C09', 'Max-score tokenizer covers each word contiguously with greedy best words',
      '''The tokens of each word are contiguous and cover it from its first to its last character; the detailed form reports for
      each token its exact offsets, length and score (the table score of a known token, else the default score). The tokens are
      those chosen by repeatedly taking the highest-scoring remaining substring of two to the maximum-length characters (longer
      first, then leftmost, on ties) that overlaps none already taken, with whatever is left between them as leftover tokens;
      the flat form lists the same tokens in order.''',
      [I, C], 'all sentences (words up to 200 characters) x score tables (positive, negative, tied, one-character entries) x maximum length >= 2 x default score',
      'The tests check two sentences with one score table.',
      ['soynlp/tokenizer/_tokenizer.py'],
      [('MaxScoreTokenizer', 'soynlp/tokenizer/_tokenizer.py:MaxScoreTokenizer')],
      'reference-model monitor (independent greedy selection) + conservation monitor', NOTE),
    P('C10', 'L-R max-score tokenizer partitions words, R parts come from its dictionary',
      '''For any left/right dictionaries (given as sets or score tables), preferences and sentence, the token texts of each word
      concatenate to exactly that word, in order, with no piece lost or repeated, and in the detailed form the left and right
      spans are contiguous, consistent with the texts, and run from the first to the last character. Every token tagged as a
      right part is a right-dictionary or right-preference word and every two-part analysis has a left-dictionary or
      left-preference word as its left part. A word that is exactly a left-dictionary word followed by a right-dictionary word,
      containing no other dictionary word, is analysed as those two parts. The chosen analysis is the greedy
      best by total score among those left after dropping left words inside a comparable longer one and right parts that run into a
      sufficiently sure left word; among equal totals the higher left score, then the higher right score, the leftmost and the longer
      left part come first, and what the chosen parts leave over is cut by the max-score rule over the right dictionary.''',
      [I, C], 'all dictionaries, scores, preferences and sentences',
      'The tokenizer is untested; the faulty cases need unknown material before, between or after dictionary words.',
      ['soynlp/tokenizer/_tokenizer.py'],
      [('MaxLRScoreTokenizer', 'soynlp/tokenizer/_tokenizer.py:MaxLRScoreTokenizer')],
      'conservation + offset-consistency monitor with dictionary-membership oracle', NOTE),
    P('C11', 'Noun tokenizers return only known nouns, in order, compounded as asked',
      '''The left-match noun tokenizer returns, for each word, the greedy longest-match sequence of dictionary nouns starting at
      the word's first character (joined into one compound, or separately when compounding is off) and nothing for words that
      begin with no noun. The noun-match tokenizer returns exactly those tokens of the max-score segmentation of each word (best score first,
      longer first, leftmost first) that are dictionary nouns with positive score, one- and two-character nouns included, at
      their true offsets in order - each reported separately, or, when compounding is on, adjacent ones joined into one span
      carrying the best of their scores.''',
      [I, C], 'all noun dictionaries x sentences x compounding/flattening options',
      'The noun tokenizers have no test.',
      ['soynlp/tokenizer/_noun_tokenizer.py', 'soynlp/tokenizer/_tokenizer.py'],
      [('NounLMatchTokenizer', 'soynlp/tokenizer/_noun_tokenizer.py:NounLMatchTokenizer'),
       ('NounMatchTokenizer', 'soynlp/tokenizer/_noun_tokenizer.py:NounMatchTokenizer')],
      'reference-model monitor (greedy match, span union) over generated dictionaries', NOTE),
    P('C12', 'Line corpus yields the same documents every pass and reports its exact length',
      '''Iterating a line corpus yields, on every pass, the stripped lines of the file after the skipped header lines, in order, or
      in sentence mode their non-blank double-space-separated pieces, stripped, in order. A document limit yields exactly the
      first that many documents, a sentence limit (sentence mode) exactly the first that many sentences, or all of them when
      there are fewer. The reported length equals the number of items a full pass yields in the current mode, before, between
      and after passes and after switching the mode of an unlimited corpus.''',
      [I, C, H], 'all file contents x limits x header skips x histories of length queries, passes, partial passes and mode switches',
      'The tests build one unlimited corpus and only iterate it.',
      ['soynlp/utils/utils.py'],
      [('DoublespaceLineCorpus', 'soynlp/utils/utils.py:DoublespaceLineCorpus')],
      'history monitor: random interleavings of len/iterate/switch against a list model of the file', NOTE,
      state=[('num_doc/num_sent', 'cached limits doubling as cached lengths', 'soynlp/utils/utils.py:DoublespaceLineCorpus')]),
    P('C13', 'Word-occurrence counter counts exactly and tracks coverage exactly',
      '''After counting a corpus, every whitespace-delimited word within the maximum length whose number of occurrences reaches
      the minimum count is held with exactly that number and no other word is held; with a pruning interval, words still below
      the minimum after every that many sentences start again from zero. Removing covered words removes exactly those words,
      and the coverage is then one minus the remaining share of the original occurrences, always within [0, 1]; lookups,
      lengths, totals and filtered listings all agree with the held counts at every point of any sequence of such operations.''',
      [I, C, H], 'all corpora x minimum count x maximum length x preprocessing x pruning interval x sequences of queries and removals',
      'No test asserts a count.',
      ['soynlp/utils/utils.py'],
      [('EojeolCounter', 'soynlp/utils/utils.py:EojeolCounter')],
      'history monitor against a Counter model after every operation', NOTE),
    P('C14', 'L-R graph keeps its left and right views consistent through any edit history',
      '''After any sequence of adding and removing pairs or words with counts, and resetting, the count reported for a left
      part's continuation equals that reported for the continuation's left part, each equals the amounts added minus those
      removed (never negative, vanishing at zero; adding or removing a word affects each of its splits), and rankings are by
      descending count truncated to the requested number. Constructing from sentences counts every occurrence once for every
      split allowed by the length limits. Resetting restores exactly the graph as constructed when it was constructed with
      content, whatever edits came in between, and the dictionaries or graphs the caller passed in are never modified.''',
      [I, H, C], 'all operation histories over small and large alphabets, all length limits',
      'No test touches the graph directly.',
      ['soynlp/utils/utils.py'],
      [('LRGraph', 'soynlp/utils/utils.py:LRGraph'), ('reset', 'soynlp/utils/utils.py:LRGraph.reset_lrgraph')],
      'history + executable model: random operation histories checked after every step against a two-dict model', NOTE,
      state=[('left view / right view', 'mirrored pair counts', 'soynlp/utils/utils.py:LRGraph'),
             ('origin', 'graph as constructed, source of reset', 'soynlp/utils/utils.py:LRGraph')]),
    P('C15', 'Counter and L-R graph conversions and files round-trip without changing counts',
      '''Converting a word counter to a word graph gives every split within the length limits (one-syllable words left out on
      request) the word's count, and converting that graph back returns every word that fits the limits with its original
      count. Saving and loading a counter, or a graph as constructed, gives an object with identical counts, right and left
      views included, for any contents including none, and a copied graph equals the graph as constructed; none of these
      operations alters its source.''',
      [I, C, H], 'all counters and graphs x length limits',
      'No test converts, saves or loads.',
      ['soynlp/utils/utils.py'],
      [('to_lrgraph / to_EojeolCounter', 'soynlp/utils/utils.py'), ('save/load', 'soynlp/utils/utils.py')],
      'round-trip monitor against dict models in scratch files', NOTE),
    P('C16', 'Word statistics equal their definitions, in batch and per word',
      '''For a trained word extractor every substring frequency equals the number of words that start (or properly end) with it,
      kept when it reaches the minimum frequency; cohesion equals (frequency of the word / frequency of its edge
      character)^(1/(length-1)) within [0, 1]; branching entropy and accessor variety equal the entropy and the number of the
      distinct one-character extensions observed at least the required times inside words or across adjacent words (sentence
      ends wrapping around); with a pruning interval, frequencies fall short of the exact ones by at most (minimum - 1) per
      pruning and never exceed them. The all-words tables give every word the same values as asking for that word alone, and extraction
      returns exactly the words meeting every configured threshold with those values.''',
      [I, C], 'all corpora x length limits x minimum frequencies x thresholds x subword removal',
      'The test prints ten words of one corpus.',
      ['soynlp/word/_word.py'],
      [('train / cohesion_score / branching_entropy / accessor_variety / word_scores / extract', 'soynlp/word/_word.py:WordExtractor')],
      'reference-model monitor (definitions recomputed from the raw corpus) + batch-versus-single differential', NOTE),
    P('C17', 'Word extractor: order-independent, cumulative and reloadable training',
      '''Training gives the same frequencies and scores for every order of the same sentences, and with no frequency cut training in
      several cumulative calls gives the same frequencies as one call on all sentences (the same scores too when nothing falls below
      its minimum within a call; pruning intervals then change nothing), while a non-cumulative call forgets
      everything before it. A saved and reloaded extractor answers every query and extracts every word exactly as the original,
      and querying, scoring or extracting never changes the trained state.''',
      [I, H, C], 'all corpora x partitions and orders of their sentences x call histories',
      'The test trains once and extracts once.',
      ['soynlp/word/_word.py'],
      [('train(cumulate)', 'soynlp/word/_word.py:WordExtractor.train'), ('save/load', 'soynlp/word/_word.py:WordExtractor')],
      'metamorphic history monitor: permuted, split and reloaded training histories compared', NOTE),
    P('C18', 'Extracted nouns are grounded in the corpus and respect every threshold',
      '''Every noun the default (version 2) extractor returns is a non-empty word that begins words of the trained corpus: its
      frequency is at least the requested minimum and at most the number of word occurrences it begins, and its score is at
      least the requested minimum and at most 1. Nouns followed by two or more different known endings, whose syllables occur
      in no ending, are returned exactly when (positive - negative)/(positive + negative) exceeds the minimum score, with that
      score and with their positive, ambiguous and bare occurrences as frequency; more generally nouns, scores and frequencies
      are those of the documented rules applied to the corpus counts. Every compound separates into two or more parts that
      concatenate to it. The reported coverage is the share of corpus word occurrences that the nouns cover:
      together with the words left in the graph when it is not reset, it adds up to the whole corpus.''',
      [I, C], 'all corpora x minimum frequency x minimum score x compound/eojeol options',
      'The test prints counts for one corpus file.',
      ['soynlp/noun/_noun_ver2.py', 'soynlp/noun/_noun_postprocessing.py'],
      [('LRNounExtractor_v2', 'soynlp/noun/_noun_ver2.py:LRNounExtractor_v2')],
      'soundness monitor over generated noun+josa corpora with known truth', NOTE),
    P('C19', 'Noun extraction is repeatable and independent of how the corpus is supplied',
      '''Extracting nouns twice from one trained extractor (without extraction of new particles), or training on the same
      sentences in another order, gives the same nouns with the same scores and frequencies. Supplying the corpus as
      sentences, as a word counter over them or as a word graph built from them with the same length limits gives the same
      nouns, and extraction leaves a caller-supplied counter and the trained graph (when reset) as they were.''',
      [I, H, C], 'all corpora x orders x supply forms x sequences of extractions',
      'The test extracts once.',
      ['soynlp/noun/_noun_ver2.py', 'soynlp/utils/utils.py'],
      [('train/extract/reset', 'soynlp/noun/_noun_ver2.py:LRNounExtractor_v2')],
      'metamorphic history monitor', NOTE),
    P('C20', 'First-generation and news noun extractors return only supported nouns',
      '''Every noun returned by the version 1 extractor begins corpus words, reaches the requested minimum frequency and score,
      and has as score the frequency-weighted mean of its known endings' scores; no word occurrence is counted for two nouns,
      planted unambiguous nouns are found, and repeating the extraction gives the same result: nouns, scores and frequencies
      are exactly those its documented scoring and postprocessing rules give. The news extractor returns, besides its base
      dictionary, exactly the nouns its rules select from the corpus words, with scores and frequencies recomputable from the
      corpus, the same on every repetition and independent of corpora extracted before.''',
      [I, C], 'all corpora x minimum frequency x minimum score x dictionaries',
      'The tests print the number of nouns of one corpus.',
      ['soynlp/noun/_noun_ver1.py', 'soynlp/noun/_noun_news.py'],
      [('LRNounExtractor', 'soynlp/noun/_noun_ver1.py:LRNounExtractor'), ('NewsNounExtractor', 'soynlp/noun/_noun_news.py:NewsNounExtractor')],
      'soundness monitor with corpus recount oracle', NOTE),
    P('C21', 'Lemmatization is sound: every analysis conjugates back to the surface word',
      '''Every (stem, ending) analysis the lemmatizer reports for a word made of complete Hangul syllables consists of a known
      stem and a known, non-empty ending whose conjugation includes exactly that word; the candidates it lists conjugate to
      the word too, and the analyses are exactly the candidates with known stem and ending (known stem only, when asked). A
      word formed from a known stem and ending by plain attachment or by the ㄷ, ㅅ, 르, ㅂ, 우, 오, ㅡ, 하+아, ㅣ+어 or final-consonant
      rules is always given that analysis, unless the ending's first syllable ends in ㅎ.''',
      [I, C], 'all words over conjugations of any stem/ending dictionaries, and arbitrary Hangul words',
      'The tests print candidate sets for a dozen words.',
      ['soynlp/lemmatizer/_lemmatizer.py', 'soynlp/lemmatizer/_conjugation.py'],
      [('Lemmatizer', 'soynlp/lemmatizer/_lemmatizer.py'), ('conjugate', 'soynlp/lemmatizer/_conjugation.py:conjugate')],
      'inverse-function monitor: analyses checked by re-conjugation against dictionaries', NOTE),
    P('C22', 'Conjugation applies exactly the documented rules and only at the junction',
      '''For a stem and an ending made of complete Hangul syllables (the ending may begin with a lone ㄴ, ㄹ, ㅁ, ㅂ or ㅆ),
      conjugation always produces some form; every form keeps the stem up to its last two syllables and the ending after its
      first two unchanged and differs from plain concatenation only by a documented rule. Each documented rule (ㄷ, ㅂ, ㅅ, 르, 러,
      우, 오, ㅡ, 여, ㅎ irregulars, 거라/너라, final consonants, ㅣ+어 and same-vowel contractions) produces its form for every stem and
      ending of its class, and when no rule applies the form is the concatenation. Vowel-harmony enforcement equals
      conjugating the harmonised ending; chat conjugation only adds the form with a lone consonant attached as final.''',
      [I], 'all stem x ending pairs of the shipped dictionaries and generated stems of each class',
      'The tests print or check about thirty pairs.',
      ['soynlp/lemmatizer/_conjugation.py'],
      [('conjugate', 'soynlp/lemmatizer/_conjugation.py:conjugate')],
      'structural monitor + class-rule reference monitor over stem/ending products', NOTE),
    P('C23', 'Predicate extraction reports only lemmas that derive the observed words',
      '''Every adjective or verb the predicate extractor reports is a corpus word made of Hangul syllables that is not a known
      noun plus particle; its frequency equals that word's occurrences and meets the minima, and each of its analyses is a
      stem and ending, known (unless extraction of new ones was asked), whose conjugation gives that word - verb stems under
      verbs, the remaining adjective stems under adjectives. Every eligible word is reported with all the analyses the
      lemmatizer's inverted rules give, except those with an ending of at most two letters most of whose two-syllable words
      are nouns. Repeating the extraction or supplying the corpus as
      sentences, counter or graph gives the same result, and data supplied by the caller keep their contents.''',
      [I, C], 'all corpora of conjugated words x dictionaries x minima',
      'The only test runs it on one corpus through the tagger pipeline.',
      ['soynlp/predicator/_predicator.py', 'soynlp/predicator/_stem.py', 'soynlp/predicator/_eomi.py'],
      [('PredicatorExtractor', 'soynlp/predicator/_predicator.py:PredicatorExtractor')],
      'soundness monitor by re-conjugation and recount', NOTE),
    P('C24', 'POS extraction accounts for every corpus word with its true frequency',
      '''The part-of-speech extractors (news and chat) report unrecognized words and adverbs with exactly their corpus counts,
      and nouns and predicates with at least one occurrence and at most the number of word occurrences they begin or end; no
      word occurrence is counted for two nouns. Every other corpus word is one syllable, a particle or ending, or contains a
      reported noun, predicate or adverb; nouns that are also predicates or adverbs are kept apart from plain nouns, and every
      predicate analysis conjugates to its word (in a compound, to its last part) and uses a reported stem. All classes, counts
      and analyses are exactly those of the documented steps, each applied to the words the steps before left: words of their
      own, noun + particle or predicate, predicate + predicate, stem + ending, syllable + the same, compound nouns (news) or
      noun phrases (chat).''',
      [I, C], 'all corpora x minima',
      'The test runs it once on one corpus and prints sizes.',
      ['soynlp/pos/_news_pos.py', 'soynlp/pos/_chat_pos.py'],
      [('NewsPOSExtractor', 'soynlp/pos/_news_pos.py:NewsPOSExtractor')],
      'soundness + conservation monitor against a recount of the corpus', NOTE),
    P('C25', 'Tagging conserves the text: tagged words reproduce each word, in order',
      '''For any sentence, the words returned by the template taggers (with unknown-word completion where the tagger keeps only
      known spans), taken in order, concatenate to the sentence without its whitespace, each with offsets matching its place.
      Every tag other than the unknown tag is one the dictionary gives for that word, and tagging is a function of the
      sentence alone. The analyses chosen come from the complete set of dictionary analyses that fit the templates (runs of
      nouns or of adverbs included for whole words), include the best-scored one - the score being the weighted sum of the
      documented features plus the preferences for its words - never overlap, and leave out none that would still fit.''',
      [I, C], 'all dictionaries x sentences, including unknown, repeated and single-character words',
      'The test tags three short fully known sentences.',
      ['soynlp/postagger/_evaluator.py', 'soynlp/postagger/_template.py', 'soynlp/postagger/_tagger.py'],
      [('LREvaluator', 'soynlp/postagger/_evaluator.py'), ('LRTemplateMatcher', 'soynlp/postagger/_template.py'), ('UnknowLRPostprocessor', 'soynlp/postagger/_tagger.py')],
      'conservation monitor + dictionary-membership oracle', NOTE),
    P('C26', 'Tagger dictionary behaves as a tag-to-words map through any edit history',
      '''After any sequence of adding and removing words (one word, or a list, set or tuple of words) under tags, looking up a word's
      tags returns exactly the tags under which it was added and not since removed; adding under an unknown tag is refused
      unless forced, and forcing creates the tag. Loading a saved dictionary gives the same answers, and collections supplied by
      the caller are never modified.''',
      [H, I], 'all operation histories over words, tags, argument forms and force flags',
      'The test builds one dictionary and never edits it.',
      ['soynlp/postagger/_dictionary.py'],
      [('Dictionary', 'soynlp/postagger/_dictionary.py')],
      'history + executable model monitor', NOTE),
    P('C27', 'Vectorizer counts exactly; vocabulary obeys its thresholds and is a bijection',
      '''After fitting, the vocabulary holds exactly the terms, stopwords excepted, whose total count and document count lie
      within the configured limits (document limits being whole numbers, rounded down, of documents), and the index and its
      inverse are mutual inverses over 0..n-1 in descending total count. Each matrix entry is the number of times the term
      occurs in the document, the file written for the same documents holds the same matrix, encoding a document and decoding
      it returns its in-vocabulary terms in order, and a saved and reloaded vocabulary (of terms without surrounding
      whitespace) encodes identically.''',
      [I, C, H], 'all document collections x tokenizers x tf/df limits x stopwords',
      'The vectorizer has no test.',
      ['soynlp/vectorizer/_vectorizer.py'],
      [('BaseVectorizer', 'soynlp/vectorizer/_vectorizer.py')],
      'reference-model monitor (recount) + memory/file differential + round trips', NOTE),
    P('C28', 'Word-context matrix holds the exact windowed co-occurrence of each word pair',
      '''The word-context matrix is square over exactly the words reaching the minimum count, listed in descending count, and
      each entry is the sum over all ordered pairs of different positions of the two words within the window in a sentence of
      1, or of (window - distance + 1)/window with dynamic weighting; it is therefore symmetric, and pairs never co-occurring
      are zero.''',
      [I, C], 'all sentence collections x window x minimum count x tokenizer x weighting',
      'The test only prints the result for one corpus.',
      ['soynlp/vectorizer/_word_context.py'],
      [('sent_to_word_contexts_matrix', 'soynlp/vectorizer/_word_context.py')],
      'reference-model monitor (direct pair enumeration)', NOTE),
    P('C29', 'PMI matrix equals its definition on every cell',
      '''For any non-negative count matrix, each stored value of the PMI matrix is log(p(x,y) / (p(x) (p(y)^beta + alpha))) with
      the smoothed, optionally caller-supplied context distribution, every cell with a positive count whose value reaches the
      minimum is present at its own row and column, every other cell is absent, and the marginal distributions returned sum
      the matrix exactly.''',
      [I, C], 'all sparse count matrices (empty rows/columns and explicit zeros included) x alpha x beta x minimum x context distribution',
      'The test prints the PMI of one corpus.',
      ['soynlp/word/_pmi.py'],
      [('pmi', 'soynlp/word/_pmi.py:pmi')],
      'reference-model monitor (dense recomputation)', NOTE),
    P('C30', 'Bigram extractor counts exactly and scores by definition',
      '''After training, each adjacent word pair inside a sentence that reaches the minimum frequency is held with exactly its
      number of occurrences (with a pruning interval, pairs below the minimum start again from zero) and no pair spans
      sentences. Extraction returns exactly the held pairs whose score by the chosen method reaches the threshold, limited to
      the requested number of best pairs, each with its true frequency f and score: log(N f / (u1 u2)) for pmi and (f -
      minimum)/(u1 u2) for mikolov, u being a word's frequency in the held pairs and N twice the sum of all f.''',
      [I, C], 'all corpora x tokenizers x minimum frequency x methods x thresholds x limits',
      'The bigram extractor has no test.',
      ['soynlp/word/_phrase.py'],
      [('Bigram', 'soynlp/word/_phrase.py:Bigram')],
      'reference-model monitor (recount and formula)', NOTE),
    P('C31', 'Similarity search returns the true nearest items, ordered, without the query',
      '''For any matrix and known query item the similarity search returns exactly the requested number of other items (all
      others when the number is negative or fewer exist), in non-increasing cosine similarity, each with its true similarity,
      none of those omitted being more similar than one returned; an unknown query returns nothing. The truncated SVD helper
      is reproducible for a fixed seed and returns factors of the requested shape with non-increasing non-negative singular
      values.''',
      [I, C], 'all dense and sparse matrices (duplicate and zero rows included) x queries x limits',
      'The test prints one query result.',
      ['soynlp/utils/utils.py', 'soynlp/utils/math.py'],
      [('most_similar', 'soynlp/utils/utils.py:most_similar'), ('svd', 'soynlp/utils/math.py:svd')],
      'reference-model monitor (direct cosine ranking)', NOTE),
    P('C32', 'Particle features learned from a corpus are exactly those its counts justify',
      '''Learning noun endings from a trained version 2 extractor yields exactly the unknown, not ignored, non-empty right parts of
      sufficiently frequent and sure nouns that themselves occur often enough after nouns, follow enough different last
      characters evenly enough, follow enough different nouns evenly enough, and whose occurrences after such nouns outweigh
      (by the requested score) those where they continue a longer noun or are themselves a noun plus a known ending - each with
      that score and frequency. Learned endings become positive features, or common ones when already negative, unless
      appending is off; the graph is left as trained and later extractions find the nouns the enlarged feature set supports.''',
      [I, C], 'all corpora x thresholds x candidate and ignore lists',
      'No test learns an ending.',
      ['soynlp/noun/_josa.py', 'soynlp/noun/_noun_ver2.py'],
      [('extract_domain_pos_features', 'soynlp/noun/_josa.py:extract_domain_pos_features'),
       ('append', 'soynlp/noun/_noun_ver2.py:LRNounExtractor_v2._append_features')],
      'reference-model monitor (definition recomputed from a recount of the corpus)', NOTE),
    P('C33', 'Predicate endings and stems learned from a corpus are those its counts justify',
      '''The ending extractor reports exactly the endings into which the words of known stems lemmatize through a sure right part:
      one that follows enough stem forms and whose occurrences after stem forms (or noun + stem form) outweigh, by the requested
      score, those after anything else, longer right parts first and words that are nouns or begin with a longer stem form left
      out. The stem extractor reports exactly the stems that frequent enough unknown left parts give with known endings, when
      known endings that follow them are varied enough and outweigh occurrences alone or inside a longer stem or ending, and
      the part neither begins with another found stem nor is itself a stem plus an ending. Frequencies are occurrences, scores
      their occurrence-weighted means; thresholds are honoured, repeated extraction and the graph do not change, and the
      predicate extractor asked to learn finds exactly the predicates its enlarged dictionaries support.''',
      [I, C], 'all corpora x stem and ending dictionaries x thresholds',
      'No test learns an ending or a stem.',
      ['soynlp/predicator/_eomi.py', 'soynlp/predicator/_stem.py', 'soynlp/predicator/_predicator.py'],
      [('EomiExtractor', 'soynlp/predicator/_eomi.py:EomiExtractor'), ('StemExtractor', 'soynlp/predicator/_stem.py:StemExtractor')],
      'reference-model monitor (definitions recomputed from a recount of the corpus)', NOTE),
    P('C34', 'Unsuitable corpora are refused unharmed; file helpers and package names work',
      '''The corpus check accepts every non-empty object with iteration and length without reading it, and refuses everything else
      with ValueError; the word counter, word extractor and noun extractors refuse such input the same way, and a refused training changes
      nothing learned before. Sorting a file leaves exactly its non-blank lines, stripped, with repetitions, in order; creating folders
      for a path makes exactly the missing parents and touches nothing that exists. The names each package promises can be
      imported; memory figures match the operating system's.''',
      [I, H], 'all objects offered as a corpus x prior trainings; all text files and paths',
      'No test passes an unsuitable corpus, sorts a file or imports the promised names.',
      ['soynlp/utils/utils.py', 'soynlp/utils/__init__.py', 'soynlp/word/_word.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/noun/_noun_ver1.py'],
      [('check_corpus', 'soynlp/utils/utils.py'), ('sort_by_alphabet', 'soynlp/utils/utils.py'), ('check_dirs', 'soynlp/utils/utils.py')],
      'contract monitor (refusal, state snapshots, file contents)', NOTE),
    P('C35', "Tagger corpus extractor: nouns first, then predicates of the remaining words",
      '''The tagger package's corpus extractor reports exactly the nouns that version 2 noun extraction finds among the words seen at
      least twice (at least ten occurrences, score at least 0.4, two kinds of ending, learned particles included), with their
      frequency and score; takes away the words those nouns begin; and reports exactly those remaining words seen at least ten
      times that are predicates of known or learned stems and endings, each with its number of occurrences in the corpus
      and all its adjective and verb analyses. The result depends on the sentences alone.''',
      [I, C], 'all corpora x left/right lengths x verbosity x log files x earlier extractions',
      'No test constructs it; it raised TypeError for every corpus.',
      ['soynlp/postagger/_pos_extractor.py'],
      [('POSExtractor.extract', 'soynlp/postagger/_pos_extractor.py')],
      'reference-model monitor (recomputation from recounted words)', NOTE),
    P('C36', 'Word-pattern trainer counts exactly, ranks by definition and reloads',
      '''After training, the left (right) word set is exactly the word beginnings up to the maximum left length (proper word endings
      shorter than the maximum right length) that occur at least the minimum number of times, or the sets supplied, which are not
      modified; both graphs hold, for every split of a corpus word into two such parts, exactly the number of occurrences of the word,
      and one is the transpose of the other. Files restore graphs and options. The mutual ranking of left and right parts follows
      its damped iteration and conserves the total rank on both sides.''',
      [I, C], 'all corpora x lengths x minima x word sets x ranking options',
      'No test covers it.',
      ['soynlp/tokenizer/_tokenizer_builder.py'],
      [('EojeolPatternTrainer', 'soynlp/tokenizer/_tokenizer_builder.py')],
      'reference-model monitor (recount and rank recomputation), conservation of total rank', NOTE),
    P('C37', 'Results depend on the inputs alone, not on the process',
      '''The same calls with the same arguments give the same results in every process: lists in the same order, equal scores decided the same
      way, rows and columns numbered the same, whatever the hash randomization of strings, the default text encoding and locale, the
      working directory, python's -O option, the state of the global random generators, and everything the library was used for
      earlier in that process. Files that one process saves another one loads with the same contents. Sets and mappings are
      compared as such; the order in which they iterate is not part of a result.''',
      [I, H], 'all inputs x process environments x earlier calls in the process',
      'Tests run in one process with one hash seed and a UTF-8 locale; two results there did depend on the hash seed.',
      ['soynlp/postagger/_template.py', 'soynlp/vectorizer/_word_context.py', 'soynlp/postagger/_dictionary.py', 'soynlp/utils/utils.py',
       'soynlp/vectorizer/_vectorizer.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/tokenizer/_tokenizer.py'],
      [('LRTemplateMatcher', 'soynlp/postagger/_template.py:LRTemplateMatcher'),
       ('sent_to_word_contexts_matrix', 'soynlp/vectorizer/_word_context.py:sent_to_word_contexts_matrix'),
       ('file encodings', 'soynlp/utils/utils.py; soynlp/postagger/_dictionary.py; soynlp/vectorizer/_vectorizer.py')],
      'differential monitor over processes (same calls under varied hash seed, locale, cwd, -O, random state and call history)', NOTE),
    P('C38', 'Queries do not disturb each other, whatever their interleaving',
      '''Queries of an object that has been built or trained (tokenizing, normalizing, tagging, lemmatizing, conjugating, scoring, predicting,
      transforming and encoding, looking up counts and graphs, reading a corpus file) leave it as it is: each returns what it
      returns alone, however many of them run at the same time in different threads, interleaved between any two steps of the
      library, or nested in the middle of each other (in a callback, a generator argument, a signal handler). Independent objects,
      also those trained on the same sentences at the same time, do not affect each other. What a query returns is the caller's own:
      changing it changes no later answer.''',
      [I, 'schedules'], 'all inputs x all interleavings of queries and of trainings of independent objects',
      'Tests run one call after another in one thread.',
      ['soynlp/tokenizer/_tokenizer.py', 'soynlp/tokenizer/_noun_tokenizer.py', 'soynlp/postagger/_template.py', 'soynlp/postagger/_evaluator.py',
       'soynlp/lemmatizer/_lemmatizer.py', 'soynlp/hangle/_hangle.py', 'soynlp/vectorizer/_vectorizer.py', 'soynlp/utils/utils.py',
       'soynlp/word/_word.py', 'soynlp/noun/_noun_ver2.py'],
      [('tokenizers', 'soynlp/tokenizer/_tokenizer.py'), ('LRTemplateMatcher', 'soynlp/postagger/_template.py'),
       ('BaseVectorizer', 'soynlp/vectorizer/_vectorizer.py:BaseVectorizer'), ('DoublespaceLineCorpus', 'soynlp/utils/utils.py:DoublespaceLineCorpus.__iter__')],
      'controlled-scheduler monitor (seeded hand-overs between lines and byte-code instructions; nested calls) against results obtained alone', NOTE),
    P('C39', 'Progress output, debug output and log files change nothing and tell the truth',
      '''Switching on progress reports, debug output or log files never changes what a component learns, returns or leaves behind, never
      makes a call fail that succeeds silently, and never alters its inputs. The totals reported at the end of a run (nouns, bigrams,
      terms, endings, predicates, counted words) are those of the result. The prediction log of the noun extractor lists every judged
      candidate once, with the frequency and score its columns are named for, best first; together with the post-processing log, which
      names what each step removed, it accounts for exactly the single nouns returned. The log of the ending extractor likewise lists every
      judged ending once with its frequency and score.''',
      [I, C], 'all corpora and queries x reporting on or off',
      'Tests run with one verbosity and discard the output.',
      ['soynlp/noun/_noun_ver2.py', 'soynlp/noun/_noun_postprocessing.py', 'soynlp/noun/_noun_ver1.py', 'soynlp/noun/_noun_news.py',
       'soynlp/predicator/_eomi.py', 'soynlp/predicator/_stem.py', 'soynlp/predicator/_predicator.py', 'soynlp/pos/_news_pos.py',
       'soynlp/word/_word.py', 'soynlp/word/_phrase.py', 'soynlp/vectorizer/_vectorizer.py', 'soynlp/vectorizer/_word_context.py',
       'soynlp/postagger/_tagger.py', 'soynlp/tokenizer/_tokenizer.py', 'soynlp/lemmatizer/_conjugation.py', 'soynlp/lemmatizer/_lemmatizer.py'],
      [('LRNounExtractor_v2.extract', 'soynlp/noun/_noun_ver2.py:LRNounExtractor_v2'), ('EomiExtractor.extract', 'soynlp/predicator/_eomi.py:EomiExtractor'),
       ('write_log', 'soynlp/noun/_noun_postprocessing.py:write_log')],
      'metamorphic monitor: quiet and reporting runs on equal inputs, with the printed totals and log rows checked against the result', NOTE),
    P('C40', 'Arguments left out mean their documented defaults, on every input',
      '''Every public function, constructor and method gives the same result whether an optional argument is left out or given, by keyword or by
      position, with its documented default: repetition limit 2, nothing but Hangul kept and no shortening in normalizing, plain edit costs,
      no vowel harmony enforced; unknown words scoring 0, tolerance 0, candidates up to 10, flat results and joined compounds in tokenizing;
      unlimited line corpora; words up to 15, left parts up to 10 and right parts up to 9 in counters and graphs, 10 results in rankings;
      unlimited vocabularies, lower-cased; window 3 and count 10 for contexts, count 5 for bigrams, minimum 0, no smoothing for pmi; lengths
      10 and 6 and count 5 for words; score 0.5 and count 5, score 0.3 and count 1, score 0.4 and count 3 for the nouns of version 1, version
      2 and news; the corresponding thresholds of learned particles, endings, stems, predicates and parts of speech.''',
      [I, C], 'all inputs and corpora x every subset of the optional arguments',
      'Tests give one fixed input, on which most thresholds make no difference.',
      ['soynlp/normalizer/_normalizer.py', 'soynlp/tokenizer/_tokenizer.py', 'soynlp/tokenizer/_noun_tokenizer.py', 'soynlp/utils/utils.py',
       'soynlp/vectorizer/_vectorizer.py', 'soynlp/vectorizer/_word_context.py', 'soynlp/word/_word.py', 'soynlp/word/_phrase.py',
       'soynlp/word/_pmi.py', 'soynlp/noun/_noun_ver1.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/noun/_noun_news.py', 'soynlp/noun/_josa.py',
       'soynlp/predicator/_eomi.py', 'soynlp/predicator/_stem.py', 'soynlp/predicator/_predicator.py', 'soynlp/pos/_news_pos.py',
       'soynlp/postagger/_tagger.py', 'soynlp/lemmatizer/_conjugation.py', 'soynlp/lemmatizer/_lemmatizer.py', 'soynlp/hangle/_distance.py'],
      [('LRNounExtractor_v2', 'soynlp/noun/_noun_ver2.py:LRNounExtractor_v2.__init__'), ('WordExtractor', 'soynlp/word/_word.py:WordExtractor.__init__'),
       ('PredicatorExtractor.train_extract', 'soynlp/predicator/_predicator.py:PredicatorExtractor.train_extract')],
      'metamorphic monitor: calls with and without the optional arguments on equal inputs, with the sensitivity to each argument observed', NOTE),
]

NOT_APPLICABLE = []

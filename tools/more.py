prop ('C13', 'Effort of a set of triads is its weighted mean, whatever the history',
    'The total typing effort is the mean of the efforts of all triads added, weighted by their counts. Removing a triad undoes adding it, resetting forgets everything, and a copy continues independently of its original. An empty set has no effort, and the result depends on the triads only, not on the order of operations.',
    ['inputs', 'histories'], 'all sequences of adding, removing, resetting and copying, all triads and weights',
    'Tests add triads once; the optimizer depends on arbitrarily long interleavings of add, remove and copy.',
    ['lulua/carpalx.py'], [('accumulators', 'Carpalx.addTriad, removeTriad, reset, copy'), ('mean', 'Carpalx.effort')])
prop ('C14', 'The optimizer rearranges keys and tracks the energy of what it did',
    'Every mutation exchanges exactly two positions, so the assignment stays one to one; pinned layers and pinned keys are respected. The incrementally updated energy after any sequence of accepted and rejected mutations equals the energy computed from scratch for the resulting layout.',
    ['inputs', 'histories', 'configurations'], 'all random choices, pins and efforts of keys',
    'Tests run the optimizer with one random sequence at most.',
    ['lulua/optimize.py', 'lulua/carpalx.py'], [('exchange', 'LayoutOptimizer.mutate'), ('incremental energy', 'LayoutOptimizer._acceptMutation, energy'), ('state', 'LayoutOptimizerState.copy')])
prop ('C15', 'Annealing returns the best state seen',
    'Annealing performs the requested number of steps and returns the state with the lowest energy among all accepted states, including the initial one. Improvements are always accepted, degradations only up to a bound which decreases to zero, and a rejected mutation leaves no trace in the current state.',
    ['inputs', 'histories'], 'all energy landscapes (real numbers)',
    'Tests sample one landscape with a fixed random sequence.',
    ['lulua/optimize.py'], [('annealing loop', 'Annealer.run')])
prop ('C16', 'The optimize command writes a rearranged layout and its true energy',
    'The layout written by the optimize command contains every text of the original layout exactly once below the same set of modifiers, space and return stay in place, and requested exchanges and pins are obeyed. The reported energy is the effort of typing the most frequent triads with the written layout and no higher than that of the starting layout.',
    ['inputs', 'configurations', 'histories'], 'all random choices, texts on keys, pins, exchanges and limits',
    'Tests do not run the command.',
    ['lulua/optimize.py', 'lulua/layout.py'], [('command', 'optimize'), ('arguments', 'parsePin, parseMutation'), ('result', 'GenericLayout.serialize')])
prop ('C18', 'Archives yield the content of every regular file',
    'Reading an archive (tar) of documents yields the exact bytes of every non-empty regular file in it, in order, each once. Directories, links, metadata, padding and names of members do not become documents.',
    ['inputs'], 'all archives: numbers, kinds and sizes of members, contents',
    'Tests read no archive.',
    ['lulua/text.py'], [('block reader', 'filterTar')])
prop ('C19', 'Compressed streams are read completely',
    'Reading from a compressed stream in portions of any size yields the decompressed data in order, without loss or duplication, and as much as requested while available. A truncated stream does not hang the reader nor yield anything that is not in the data.',
    ['inputs', 'schedules', 'fault_sequences'], 'all contents, chunk sizes, sequences of reads and ways the decompressor releases its output',
    'Tests read no compressed stream; errors depend on the alignment of chunks and reads.',
    ['lulua/text.py'], [('buffering', 'BrotliFile.read'), ('filter', 'filterBrotli')])
prop ('C20', 'Text of web pages is the text of the selected elements',
    'The text extracted from an HTML document is exactly the text within the selected elements in document order, with scripts, styles, comments and markup left out and paragraphs separated by line breaks. Text of other elements does not show up.',
    ['inputs'], 'all documents (nesting of elements, texts)',
    'Tests do not extract text from HTML.',
    ['lulua/text.py'], [('element selection', 'Select.__iter__'), ('serialisation', 'HTMLSerializer.serialize')])
prop ('C21', 'Text of XML corpora is the text of their sentences',
    'From a TEI.2 document the text of all sentences is extracted, one per line, paragraphs separated by an empty line; from subtitles one line per sentence without surrounding white space. Nothing else (headers, comments) becomes text, and nothing is lost.',
    ['inputs'], 'all documents',
    'Tests read no such documents.',
    ['lulua/text.py'], [('node text', 'getText'), ('filters', 'filterTEI2, filterOpenSubtitles')])
prop ('C22', 'Streaming helpers neither lose, duplicate nor reorder items',
    'A chain of filters yields all results in order, every result of one filter being passed once to the next one and nothing being read ahead. Iterating the characters of a stream yields each character once, in order, no matter in which portions it is delivered; a limit yields the first items and draws none beyond.',
    ['inputs', 'schedules'], 'all chains, streams and portions',
    'Tests check one limit of a fixed range.',
    ['lulua/text.py', 'lulua/util.py'], [('chains', 'apply'), ('characters', 'iterchar'), ('limits', 'limit, first')])
prop ('C23', 'Numbers in reports are what they stand for',
    'Abbreviated numbers deviate from the number by rounding to one decimal digit only and use the largest unit that fits; fractions are the best approximation with a small denominator. Digits in Arabic reports are replaced by digits of the same value.',
    ['inputs'], 'all numbers and strings',
    'Tests check a dozen fixed numbers.',
    ['lulua/report.py'], [('abbreviation', 'approx'), ('fractions', 'fraction'), ('digits', 'arabnum, numspace')])
prop ('C24', 'Drawings show every key in place with its texts',
    'In the drawing of a layout every key of the keyboard appears once, at the place and with the width given by the keyboard, without overlapping another one and inside of the drawing. Every text is shown in the quadrant belonging to its layer and nothing else is, modifier keys show the layer they select, keys without text are marked as unused. Home keys carry their marker, and highlights are on their keys with an intensity proportional to their heat.',
    ['inputs', 'configurations'], 'all widths of keys, settings, layouts and heat maps',
    'Tests render shipped layouts without looking at the result.',
    ['lulua/render.py', 'lulua/util.py'], [('geometry', 'Renderer._calcDimensions'), ('labels', 'Renderer._drawLabel'), ('composition', 'Renderer.render'), ('command', 'renderSvg')])
prop ('C25', 'X11, Keyman and macOS exports type what the layout says',
    'In the exported X11, Keyman and macOS layouts every key produces the text of the layout, with the modifiers of the layer this text belongs to. No key produces anything in a layer in which it has no text, every key appears once, and modifier keys switch layers. The macOS layout is a well-formed document, whatever the texts are.',
    ['inputs', 'configurations'], 'all layouts (keys, texts, layers)',
    'Tests only check that exporting shipped layouts does not raise.',
    ['lulua/render.py', 'lulua/data/keyboards/ibmpc105.yaml'], [('X11', 'renderXmodmap'), ('Keyman', 'renderKeyman'), ('macOS', 'renderKeylayout'), ('shared key codes', 'unique')])
prop ('C26', 'Android and Klavaro exports list every key in order with its texts',
    'The exported Android and Klavaro layouts contain the letter keys of every row in order, with the canonically composed text of the layout. On Android the first layer is typed, all other layers are available as popup, rows are filled and a bottom row with return, space and backspace is present; for Klavaro the first two layers are listed line by line with a space for unused keys.',
    ['inputs', 'configurations'], 'all layouts (keys, texts, layers)',
    'Tests only check that exporting shipped layouts does not raise.',
    ['lulua/render.py'], [('Android', 'renderAsk'), ('Klavaro', 'renderKlavaro')])
prop ('C27', 'The Windows driver types what the layout says',
    'With the tables of the generated Windows keyboard driver, pressing any key together with the modifiers of any layer yields exactly the character the layout assigns, or none (return being translated to carriage return). All tables are well-formed: sorted and terminated where required, with the number of entries they announce.',
    ['inputs', 'configurations'], 'all characters on all keys, virtual key tables and scancodes',
    'Tests do not generate drivers.',
    ['lulua/render.py', 'lulua/winkbd.py'], [('driver', 'makeDriverSources'), ('scancodes', 'scancodeToVkTables'), ('modifiers', 'vkToBits, charModifiers'), ('characters', 'vkToWchar'), ('layout translation', 'renderWinKbd')])
prop ('C30', 'Displayed text is visible',
    'Text is displayed as it is unless it would be invisible: text of combining characters only is put on a placeholder, format characters are shown by the initials of their name in brackets, and tab, return, space, backspace and narrow no-break space by symbols.',
    ['inputs'], 'all texts',
    'Tests check four fixed strings.',
    ['lulua/util.py'], [('display', 'displayText')])
prop ('C29', 'Imported layouts type what the original does',
    'Importing a Microsoft Keyboard Layout Creator file yields a layout in which every key (with its standard virtual key) has the canonically decomposed text of each column in the layer reached by the corresponding modifiers, and no other texts. Entries without character, comments and other sections of the file have no effect, and the result can be used on the shipped keyboard.',
    ['inputs'], 'all characters on all keys, numbers of columns and styles of the file',
    'Tests do not import layouts.',
    ['lulua/layout.py'], [('parser', 'GenericLayout.fromKlc'), ('command', 'importKlc')])
prop ('C28', 'Figures derived from statistics are what they claim',
    'Presses per hand and finger, asymmetry, shares of hamza, heat maps, sizes of a corpus, distributions of letters, printed summaries and word lists (with their header) are computed from the right counts, complete and sorted. A list of triads contains those which make up the requested share of the text, binned by text, with their total weight and mean effort, in the requested order and number. The effort curve of a layout runs through the cumulative shares of its most frequent triads.',
    ['inputs', 'configurations'], 'all counts in statistics, cutoffs, limits and orders',
    'Tests do not run these commands.',
    ['lulua/stats.py', 'lulua/plot.py'], [('hands, fingers, hamza', 'layoutstats'), ('summaries', 'pretty, keyHeatmap, corpusStats, latinImeDict'), ('triads', 'triadfreq, triadEffortData'), ('plots', 'letterfreq, triadEffortPlot')])
prop ('C31', 'Importing a corpus counts every item once and always terminates',
    'However the processes of the import command interleave, every line of the input is processed exactly once and the results of all workers are written, one each at most. If an item cannot be processed the command terminates and reports the failure, no matter when, how many workers fail or how much input is left. When interrupted it writes the statistics of what it has read.',
    ['schedules', 'inputs', 'fault_sequences'], 'all schedules of main process, workers and progress display; all positions of failing items',
    'Tests do not run the command; hangs depend on timing.',
    ['lulua/text.py'], [('distribution of items', 'write'), ('workers', 'writeWorker'), ('progress', 'statusWorker')])
prop ('C32', 'Layouts and keyboards are found by name',
    'A name given by the user refers to the file of that name if there is one (and it is text), else to the shipped description of that name with extension, else without; an unknown name is reported as such. Iterating visits every shipped description exactly once, hidden and other files are not visited, and files in the current directory have no influence.',
    ['inputs', 'configurations'], 'all names and all sets of existing files',
    'Tests look up two fixed names.',
    ['lulua/util.py'], [('lookup', 'YamlLoader.__getitem__'), ('listing', 'YamlLoader.__iter__')])
prop ('C33', 'Reports are complete and their totals are right',
    'The report command passes every corpus description (of any number of files and documents, skipping empty ones) and the statistics of every layout, each under the name of its layout, to the report. The total number of words and characters is the sum over all corpora. Formatting functions and names of letters used in the text are available and refer to what they are called.',
    ['inputs', 'configurations'], 'all numbers, files and layouts',
    'Tests check formatting functions only.',
    ['lulua/report.py'], [('command', 'render')])
prop ('C34', 'Every kind of source yields the text of its documents',
    'Each source named in the input (file, line, JSON string, EPUB book, HTML, XML or mediawiki document) yields the complete text of each of its documents once and in order; a document which cannot be parsed or converted yields nothing and does not affect others. Files are open while they are read and closed afterwards, and conversion by an external program passes on all input and cannot deadlock. Extracting a mediawiki dump yields one line per page with its complete text.',
    ['inputs', 'fault_sequences'], 'all texts, names, numbers of documents and failures',
    'Tests read plain text lines only.',
    ['lulua/text.py'], [('filters', 'filterEpub, filterHtml, filterText, filterJson, filterFile, filterXml, filterMediawikiMarkdown, filterAvail'), ('extraction', 'extractMediawiki')])
prop ('C35', 'Commands do what was asked for, with the options given',
    'Each command of the analysis, rendering and import programs is run, once and nothing else, with the layout, keyboard, files, numbers and order given on the command line in any notation and order of options, and with the documented defaults for those not given; its result is the exit status. The optimizer runs with the layout, model, pins, number of steps and triads asked for, the corpus import with the layout, number of workers and the filters in the order asked for. Unknown commands, formats, orders, models and filters, malformed numbers, missing arguments and missing files are rejected without running anything.',
    ['inputs', 'configurations'], 'all names, numbers and combinations of options',
    'Tests call the functions behind the commands with hand-made arguments.',
    ['lulua/stats.py', 'lulua/render.py', 'lulua/layout.py', 'lulua/optimize.py', 'lulua/text.py'], [('analysis', 'main'), ('rendering', 'render, yamlload'), ('import', 'importFrom'), ('optimizer', 'optimize'), ('corpus import', 'write')])
prop ('C36', 'Keys have their standard codes and fingers, layouts cover the alphabet',
    'Every key of the shipped keyboard is pressed by the hand and finger which touch typing assigns to it, is in the row it belongs to, and has the Windows, X11 and macOS codes of the physical key at this place. Every letter of the Arabic alphabet can be typed on every shipped layout, and hamza, vowel signs and punctuation on the recommended one.',
    ['inputs', 'configurations'], 'all keys, all letters',
    'Tests use a handful of keys and letters.',
    ['lulua/writer.py', 'lulua/keyboard.py', 'lulua/data/keyboards/ibmpc105.yaml', 'lulua/data/layouts'], [('fingers', 'defaultFingermap, Writer.getHandFinger'), ('rows', 'PhysicalKeyboard.getRow'), ('codes', 'ibmpc105.yaml'), ('letters', 'data/layouts/*.yaml')])

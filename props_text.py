"""The statements of the properties (source of properties.jsonl)."""
ONLY = 'The one stable test reports a single fixed span. '
NOT = 'No test in the stable set runs this code at all; '
TEXT = {
    'C01': dict(title='Diagnostics name file, span and message exactly',
        statement='A reported error is one line "error FILE:L:[C1,C2]: MSG" when it begins and ends on the same line and "error FILE:L1:C1 to L2:C2: MSG" otherwise, with FILE "??" when none is known. This holds for every file name, line, column and message, each reproduced exactly.',
        quant='all 32-bit line and column numbers, all file names and messages', why='The stable test prints one fixed span; the branch between the two forms and extreme numbers need all spans.',
        files=['parser_support.cc'], mech=[('error formatting', 'parser_support.cc: error()')], observe=['standard error']),
    'C02': dict(title='String literals denote exactly their decoded content',
        statement='A quoted literal in a script stands for its content with \\n, \\\', \\", \\? and \\\\ decoded and every other byte kept, and adjacent literals are joined. A literal with any other escape, or with an unescaped line break, makes the script be refused.',
        quant='all literal bodies', why=NOT + 'escape handling interacts with every byte value and position.',
        files=['lexer.l', 'parser_support.cc', 'ast.cc', 'parser.y'], mech=[('escape decoding', 'ast.cc: NewQuote()'), ('literal token', 'lexer.l'), ('joining', 'parser.y: string_lit')]),
    'C03': dict(title='Text is written as a balanced, faithful PostScript string',
        statement='Whatever bytes a text contains, it is written as a well-formed PostScript string that an interpreter reads back as exactly those bytes, followed by the show operation asked for (centred or not).',
        quant='all text contents', why=NOT + 'one unescaped parenthesis or backslash corrupts the page and only some byte sequences show it.',
        files=['ps.cc', 'ps.h'], mech=[('escaping', 'ps.cc: TextToPs()')]),
    'C04': dict(title='Numbers in scripts mean their decimal value',
        statement='An optional sign, digits and an optional fraction (or a fraction alone) is a number with its decimal value; any other arrangement of those characters is refused. A number too large to be represented is refused with a diagnostic instead of crashing.',
        quant='all number spellings', why=NOT + 'accepted spellings and magnitude limits form an unbounded set.',
        files=['lexer.l', 'parser.y'], mech=[('number tokens', 'lexer.l: ParseNum and the NUM rules')]),
    'C11': dict(title="A facet's outside is the side its normal points to",
        statement='A facet is drawn exactly when its outside faces the reader, and which side is outside is decided by the normal given in the file, not by the order of the corners. A facet whose normal is zero is left out of the model.',
        quant='all corner positions, corner orders and normals', why=NOT + 'wrong handedness shows only for some corner orders and directions.',
        files=['stl.cc'], mech=[('orientation', 'stl.cc: Facet::Facet'), ('zero normals', 'stl.cc: STLFile::Make'), ('culling', 'stl.cc: CullBackFace')]),
    'C12': dict(title='Each view is the rotation it names, never a mirror image',
        statement='The views Z+, Z-, X+, X-, Y+ and Y- (Z+ when none is given) show the model from that side with the documented up direction, and view angles [turn, tip] turn the model about the vertical axis and then tip it. Every view is a proper rotation, and any other view name is refused.',
        quant='all models (triangles), all view names up to 3 bytes, all angle pairs', why=NOT + 'a mirrored or transposed view looks right on symmetric models.',
        files=['geo.cc', 'geo.h', 'ast.cc', 'stl-to-ps.cc'], mech=[('named rotations', 'geo.h: matrix'), ('angles', 'geo.cc: Rotate'), ('names', 'ast.cc: GetMatrixByName')]),
    'C13': dict(title='All facets facing the reader are drawn, and only those',
        statement='The drawing contains the edges of every facet that faces the reader and of no facet that faces away or is seen edge-on, whatever the number and file order of facets facing either way.',
        quant='all arrangements of facing directions', why=NOT + 'in-place removal errors depend on which neighbouring facets are removed.',
        files=['stl.cc'], mech=[('culling', 'stl.cc: STLFile::CullBackFace'), ('edge index', 'stl.cc: STLFile::Index')]),
    'C14': dict(title='Shared edges are drawn once, and flat seams not at all',
        statement='An edge shared by two drawn facets appears once, and does not appear when the surface is flat there (the cosine between the normals is at least .98). An edge that belongs to only one drawn facet always appears.',
        quant='all heights of two facets, all corner and file orders', why=NOT + 'the flatness threshold and edge identity depend on exact geometry and corner order.',
        files=['stl.cc'], mech=[('edge index and seams', 'stl.cc: STLFile::Index')]),
    'C16': dict(title='A partly hidden edge is drawn as exactly its visible stretches',
        statement='Given the hidden stretches of an edge sorted from its start, the drawn lines are exactly the rest of the edge: nothing hidden is drawn, nothing visible is lost, overlapping or nested stretches included. When hidden lines are to be shown the whole edge is drawn.',
        quant='all sets of up to 4 hidden stretches', why=NOT + 'overlap, nesting and touching ends give many interval configurations.',
        files=['stl.cc', 'stl.h'], mech=[('interval sweep', 'stl.cc: GenerateLines')], observe=['the list of lines returned']),
    'C17': dict(title='A drawing is to scale and centred where it was placed',
        statement='A model drawn with scale a:b at [x,y] appears with one model unit measuring 72*a/b points and with the centre of its bounding box x and y inches from the page centre. A scale that is not a ratio of positive whole numbers is refused.',
        quant='all triangles, places and scales', why=NOT + 'offsets cancel for symmetric models and scale 1:1.',
        files=['stl-to-ps.cc', 'stl.cc', 'parser.y'], mech=[('placement', 'stl-to-ps.cc: DrawToPage::operator()(const Draw&)'), ('bounding box', 'stl.cc: Limits'), ('ratio', 'parser.y: arg')]),
    'C18': dict(title='A dimension shows the true distance along its direction',
        statement='A "dim" shows, centred at its place, the distance between its two points measured along its direction, with arrow tips at the feet of those points on the line through the place. Arrows point outwards with the text between them when it fits and inwards from outside when not, and extension lines lead to both points, in every view and scale.',
        quant='all points, direction lengths, views and scales', why=NOT + 'lengths, arrow sides and the fit decision depend continuously on the input.',
        files=['stl-to-ps.cc'], mech=[('dimension', 'stl-to-ps.cc: DrawToPage::operator()(const Dim&)')]),
    'C05': dict(title='Blanks and comments change nothing but line numbers',
        statement='Blanks, line breaks and // comments between the symbols of a script, in any number and with any content, change neither whether it is taken nor what is written. Diagnostics name the line on which the trouble really is, counting every line break before it.',
        quant='all runs of blanks and comments at every place', why=NOT + 'line counting and comment ends depend on every byte between symbols.',
        files=['lexer.l', 'parser_support.cc', 'stl-to-ps.cc'], mech=[('blanks, comments and line counting', 'lexer.l'), ('diagnostics', 'parser_support.cc: error()')], observe=['the return value, the written PostScript and standard error']),
    'C06': dict(title='Scripts are taken exactly when they follow the grammar',
        statement='A script of load and page statements is taken exactly when it follows the documented grammar; anything else is refused with a diagnostic and without output. No script, however malformed, crashes the program, reads outside its memory or leaks what it parsed.',
        quant='all scripts', why=NOT + 'malformed scripts are an unbounded set and error recovery paths run only on some of them.',
        files=['parser.y', 'lexer.l', 'parser_support.cc', 'parser.cc', 'ast.h', 'stl-to-ps.cc'], mech=[('grammar', 'parser.y'), ('tokens', 'lexer.l'), ('entry', 'stl-to-ps.cc: ScriptToPS()')], observe=['the return value, the parsed tree, standard error and memory']),
    'C07': dict(title='Every part takes exactly its own properties',
        statement='A page, drawing, text or annotation takes only the properties it knows, each at most once and of the right type, in any order, and only with every required one present. Anything else makes the whole script be refused with a diagnostic.',
        quant='all subsets, repetitions, orders, types and names of properties', why=NOT + 'the rules multiply over every part, property and value type.',
        files=['ast.cc', 'ast.h', 'parser.y'], mech=[('property checks', 'ast.cc'), ('properties in scripts', 'parser.y')]),
    'C08': dict(title='All or nothing: a script is drawn whole or refused whole',
        statement='When any page, drawing, annotation or model of a script is faulty, wherever it is, the run fails with a diagnostic and writes no output at all. Otherwise every part of every page is written, in full.',
        quant='all arrangements of right and faulty parts over two pages', why=NOT + 'a lost failure shows only for a fault in one particular kind of place.',
        files=['stl-to-ps.cc', 'ast.cc', 'stl.cc'], mech=[('running the script', 'stl-to-ps.cc: ScriptToPS(), ProcessScript()'), ('loading', 'stl-to-ps.cc: LoadFiles')]),
    'C09': dict(title='Models are read from the first load path entry that has them',
        statement='A model file name is looked up in each entry of the comma separated load path in turn, the current directory first, and the first place that has such a file is the one read. When no place has it the run fails with a diagnostic naming the file and writes nothing.',
        quant='all load paths, file names and sets of existing files', why=NOT + 'the order of places shows only when several have the file.',
        files=['stl-to-ps.cc'], mech=[('search', 'stl-to-ps.cc: LoadFiles')]),
    'C10': dict(title='Model files are taken exactly when every facet is well formed',
        statement='An ASCII STL file is taken when every line has one of the known forms and every facet has exactly three vertexes, and each coordinate read is the value written. Any other file makes the run fail with a diagnostic; none crashes the program or is taken in part.',
        quant='all ASCII file contents near a well-formed file', why=NOT + 'malformed model files form an unbounded set.',
        files=['stl.cc', 'stl.h'], mech=[('file reading', 'stl.cc: STLFile::Make, Facet::Facet')]),
    'C19': dict(title='An angle annotation shows the angle between its directions',
        statement='An "angle" shows the angle between its two directions (given as directions or as points seen from the apex) in degrees, whichever is named first and whatever their lengths. Its arc goes counterclockwise from one to the other around the apex through the place of the text, with arrows at its ends and extension lines beyond it, in every view and scale; directions along one line are refused.',
        quant='all directions, apexes, places, views and scales', why=NOT + 'order, quadrant and length of the directions combine into many cases.',
        files=['stl-to-ps.cc', 'geo.cc', 'geo.h', 'ps.cc'], mech=[('angle', 'stl-to-ps.cc: DrawToPage::operator()(const Angle&)'), ('arcs', 'geo.h: Arc; ps.cc: ArcToPs()')]),
    'C20': dict(title='Diameters and radii show the size of the round feature',
        statement='A "dia" or "rad" shows the diameter or radius of the circle through the corners around the given centre, marked with its sign, with arrows on that circle along the direction given and a leader to the text. It does so from any rough centre, in every view and scale; a direction that is zero on the page is refused.',
        quant='all places, directions, rough centres, views and scales', why=NOT + 'the circle is found in two steps that depend on all corners.',
        files=['stl-to-ps.cc', 'center.cc'], mech=[('finding the circle', 'stl-to-ps.cc: DrawToPage::GetCenter'), ('diameter', 'stl-to-ps.cc: DrawToPage::RenderDia'), ('radius', 'stl-to-ps.cc: DrawToPage::RenderRad')]),
    'C21': dict(title='near() and center() name the right points of the model',
        statement='near(p) is the corner of the model closest to p and center(p) the centre of the circle through the corners around p, nested or not; any other name is refused. The closest corners are the true closest, nearest first, each distinct corner once, and a circle found is the one through its points.',
        quant='all points, arrangements and names', why=NOT + 'selection depends on the order and spacing of all corners.',
        files=['ast.cc', 'ast.h', 'center.cc', 'center.h'], mech=[('selection', 'ast.cc: point_impl::Closest, Between'), ('functions', 'ast.cc: PointFunc::Invoke'), ('circle', 'center.cc: FindCircle')]),
    'C22': dict(title='Texts appear line by line where they were placed',
        statement='A text placed at [x,y] starts x and y inches from the page centre, and each of its lines follows 12 points below the one before, empty lines included. No line, character or later text is lost or moved.',
        quant='all texts and places', why=NOT + 'only some arrangements of line breaks show a lost or shifted line.',
        files=['stl-to-ps.cc', 'ast.cc', 'ps.cc'], mech=[('lines', 'stl-to-ps.cc: text blocks'), ('strings', 'ps.cc: TextToPs()')]),
    'C23': dict(title='The document around the drawings is complete and well formed',
        statement='The output is a header naming image, source and time, then every page in order, labelled "page K of N", with its frame, its footer as asked for by the flags, its name in its box, and one showpage. No name, whatever its bytes, can leave its comment or string.',
        quant='all names, page counts and flags', why=NOT + 'names with line breaks or parentheses and two-digit page counts need all values.',
        files=['ps.cc', 'stl-to-ps.cc'], mech=[('header, page start and end', 'ps.cc: DocumentHeader(), PageHeader(), PageFooter()'), ('pages', 'stl-to-ps.cc: RenderPages()')]),
    'C24': dict(title='Parts of a script do not affect each other',
        statement='What a drawing, text or annotation contributes to its page is the same alone, after or before any other part, and on any page. Running a script again in one process, even after a refused one, gives the same pages.',
        quant='all combinations and orders of parts', over=['inputs', 'histories'], why=NOT + 'leftover state shows only for particular pairs of parts in one order.',
        files=['stl-to-ps.cc', 'stl.cc', 'ast.cc', 'ast.h'], mech=[('visiting parts', 'stl-to-ps.cc: DrawToPage'), ('models shared by drawings', 'stl-to-ps.cc: STLFile use')]),
    'C15': dict(title='What a facet in front covers is hidden, everything else drawn',
        statement='In a drawing, the part of an edge that lies behind another facet, as seen by the reader, is not drawn, and every part that no facet covers is drawn to its full length. Which facet is in front depends only on depth, not on file order, facet order or view (facets that do not cut through each other).',
        quant='all shapes, positions and depths of facets in front of and behind each other', why=NOT + 'crossings, enclosed ends and several covers form a continuum of configurations.',
        files=['stl.cc'], mech=[('crossings', 'stl.cc: STLFile::EdgeCrosses'), ('covered stretches', 'stl.cc: STLFile::ToLines')]),
    'C25': dict(title='The format of an annotation decides how its value is written',
        statement='The "fmt" of a dim, dia, rad or angle holds exactly one %f conversion (with any flags, width and precision of printf). The annotation shows its text before and after exactly as given ("%%" as one percent sign, every other byte as itself) and the value in that form; any other format is refused with a message and never shown, read past or crashed on.',
        quant='all formats', why=NOT + 'formats are arbitrary byte strings interpreted twice, by printf rules and by PostScript strings.',
        files=['stl-to-ps.cc', 'ps.cc'], mech=[('format of a value', 'stl-to-ps.cc: DrawToPage RenderDia, RenderRad, operator()(Dim), operator()(Angle)')]),
    'C26': dict(title='The exit status tells whether the document was written',
        statement='The program exits with success exactly when the script and all models were taken, and then the output file holds exactly the document the script describes, whatever was there before and however the files are named. When a flag is missing, a file cannot be opened or anything is refused, it ends with a failure status, and no drawing is in the output file.',
        quant='all scripts, file names and older contents', why=NOT + 'no test runs the program at all.',
        files=['stl-to-ps-main.cc', 'stl-to-ps.cc'], mech=[('program', 'stl-to-ps-main.cc: main()'), ('run', 'stl-to-ps.cc: ScriptToPS()')]),
    'C27': dict(title='Failing reads and writes never pass for success',
        statement='If reading the script or a model fails at any byte, or writing or closing the output fails at any byte, the program ends with a failure status: nothing is drawn from a script or model that was only partly read, and a document that is not wholly in the file is not reported as written. A directory is never taken for a model.',
        quant='all points of failure', over=['inputs', 'fault_sequences'], why=NOT + 'failures at a given byte do not occur in tests.',
        files=['stl-to-ps-main.cc', 'stl.cc', 'stl-to-ps.cc'], mech=[('writing', 'stl-to-ps-main.cc: main()'), ('reading models', 'stl.cc: STLFile::Make'), ('opening models', 'stl-to-ps.cc: LoadFiles()')]),
}

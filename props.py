"""The registered properties: harness, entries, bounds, engine limits."""
PROPS = {
    'C01': {'harness': 'C01.cc', 'outside': 'several free bytes far apart in a long message; embedded NUL bytes', 'entries': {
        'C01_spans': {'bounds': 'all 2^128 spans (four 32-bit ints), with and without a file name', 'must': ['one line', 'many lines']},
        'C01_text': {'bounds': 'every file name of 0-3 and message of 0-4 non-NUL bytes', 'must': ['message']},
        'C01_long': {'bounds': 'names and messages of 53 lengths 12-20000 around powers of two and round numbers, 2 arbitrary bytes near the end', 'must': ['message']},
    }},
    'C02': {'harness': 'C02.cc', 'outside': 'several free bytes far apart in a long literal', 'entries': {
        'C02_one': {'bounds': 'every body of 0-3 arbitrary bytes without an unescaped quote', 'must': ['decoded', 'rejected']},
        'C02_two': {'bounds': 'two adjacent literals sharing 2 symbolic ASCII bytes, 4 separators', 'must': ['decoded']},
        'C02_lines': {'bounds': 'text bodies of 3 symbolic ASCII bytes', 'must': ['line text', 'line position']},
        'C02_long': {'bounds': 'literals of 53 lengths 12-20000 around powers of two and round numbers, 2 arbitrary bytes near the end', 'must': ['decoded', 'rejected']},
        'C02_many': {'bounds': '0-39 adjacent literals', 'must': ['decoded']},
    }},
    'C03': {'harness': 'C03.cc', 'outside': 'several free bytes far apart in a long text', 'entries': {
        'C03_one': {'bounds': 'every text of 0-4 bytes, centred or not', 'must': ['same text']},
        'C03_two': {'bounds': 'every pair of texts of 2 bytes', 'must': ['same text']},
        'C03_long': {'bounds': 'texts of 53 lengths 12-20000 around powers of two and round numbers, 2 arbitrary bytes near the end', 'must': ['same text']},
    }},
    'C04': {'harness': 'C04.cc', 'outside': 'more than 5 symbolic characters; binary rounding of the value', 'entries': {
        'C04_short': {'bounds': 'every string of 1-3 characters over [0-9+-.e]', 'must': ['value', 'rejected']},
        'C04_four': {'bounds': 'every string of 4 characters over [0-9+-.e]', 'must': ['value', 'rejected']},
        'C04_five': {'bounds': 'every string of 5 characters over [0-9+-.e]', 'must': ['value']},
        'C04_six': {'bounds': 'every string of 6 characters over [0-9+-.e]', 'must': ['value']},
        'C04_seven': {'bounds': 'every string of 7 characters over [0-9+-.e]', 'must': ['value'], 'tier': 'thorough'},
        'C04_range': {'bounds': '1-45 digits before or after the point, symbolic leading digit', 'must': ['value']},
    }},
    'C18': {'harness': 'C18.cc', 'outside': 'dim directions with a component along the view', 'entries': {
        'C18_axes': {'bounds': 'at/from/to any in [-3,3]^3, direction length 1/8..8, 4 axis directions, 6 views', 'must': ['text between the arrows', 'arrows from outside']},
        'C18_scales': {'bounds': '3 scales', 'must': ['text between the arrows', 'arrows from outside']},
        'C18_slanted': {'bounds': '4 slanted directions', 'must': ['text between the arrows', 'arrows from outside']},
        'C18_depth': {'bounds': 'any two points in [-3,3]^3, 4 directions, 8 views', 'must': ['measured']},
        'C18_long': {'bounds': '8 lengths of text around the value up to 63 characters, 2 directions', 'must': ['text between the arrows', 'arrows from outside']},
    }},
    'C17': {'harness': 'C17.cc', 'outside': 'models of more than one triangle; scales above 99:9', 'entries': {
        'C17_triangle': {'bounds': 'any triangle with corners in [-4,4]^3 that faces the reader, placed anywhere in [-5,5]x[-4,4]', 'must': ['drawn']},
        'C17_scale': {'bounds': 'all scales 1:1-99:9', 'must': ['drawn']},
        'C17_ratio': {'bounds': 'all scales [-]d.d:[-]d.d', 'must': ['drawn', 'refused']},
    }},
    'C12': {'harness': 'C12.cc', 'outside': 'angle views of models other than one oblique two-sided triangle', 'entries': {
        'C12_named': {'bounds': 'any triangle, 6 names and no name', 'must': ['drawn']},
        'C12_names': {'bounds': 'every string of 0-3 bytes', 'must': ['named']},
        'C12_turn': {'bounds': 'every turn angle', 'must': ['drawn']},
        'C12_tip': {'bounds': 'every tip angle', 'must': ['drawn']},
        'C12_both': {'bounds': 'every pair of angles', 'must': ['drawn']},
    }},
    'C11': {'harness': 'C11.cc', 'outside': 'facets edge-on to the reader', 'entries': {
        'C11_side': {'bounds': 'every triangle with corners in [-4,4]^3 and every normal in [-1,1]^3 not in its plane', 'must': ['drawn', 'not drawn']},
        'C11_zero': {'bounds': 'three arrangements of two facets, one normal z in [-1,1]', 'must': ['kept', 'left out']},
    }},
    'C13': {'harness': 'C13.cc', 'outside': 'more than 5 facets', 'entries': {
        'C13_three': {'bounds': '3 facets each facing either way', 'must': ['some face the reader', 'none faces the reader']},
        'C13_five': {'bounds': '5 facets each facing either way', 'must': ['some face the reader', 'none faces the reader']},
        'C13_grazing': {'bounds': 'a facet of any height at 7 grazing angles either side of edge-on', 'must': ['faces the reader', 'does not']},
        'C13_box': {'bounds': 'a box of any size at two places in 16 views by angles', 'must': ['drawn']},
        'C13_solid': {'bounds': 'an octahedron from 6 sides', 'must': ['solid']},
    }},
    'C14': {'harness': 'C14.cc', 'outside': 'more than two facets on an edge', 'entries': {
        'C14_fold': {'bounds': 'two facets with corner heights in [-3,3]', 'must': ['ridge drawn', 'flat seam not drawn']},
        'C14_sharp': {'bounds': 'slopes to 100:1 either way, 5 against any', 'must': ['ridge drawn', 'flat seam not drawn']},
        'C14_above': {'bounds': 'a step of .03 to 1, 36 corner and file orders, 4 placements', 'must': ['both edges drawn']},
        'C14_order': {'bounds': '72 corner/file orders, heights in [-1,1]', 'must': ['ridge drawn', 'flat seam not drawn']},
        'C14_fan': {'bounds': 'four facets around a point of height in [-1,1], all 24 file orders, 3 corner orders', 'must': ['ridge drawn', 'flat seam not drawn']},
        'C14_apart': {'bounds': 'gap .01 to 1', 'must': ['both edges drawn']},
    }},
    'C16': {'harness': 'C16.cc', 'outside': 'more than 4 hidden stretches', 'entries': {
        'C16_none': {'bounds': 'no stretch', 'must': ['one stretch']},
        'C16_one': {'bounds': 'any stretch', 'must': ['one stretch', 'several stretches']},
        'C16_two': {'bounds': 'any 2 stretches', 'must': ['one stretch', 'several stretches', 'all hidden']},
        'C16_three': {'bounds': 'any 3 stretches', 'must': ['several stretches']},
        'C16_four': {'bounds': 'any 4 stretches', 'must': ['several stretches'], 'tier': 'thorough'},
        'C16_shown': {'bounds': '2 stretches, hidden lines shown', 'must': ['one stretch']},
    }},
    'C06': {'harness': 'C06.cc', 'outside': 'two independent edits; more than 7 consecutive free symbols', 'entries': {
        'C06_insert': {'bounds': 'any byte inserted at any place of a script using the whole grammar', 'must': ['taken', 'refused']},
        'C06_change': {'bounds': 'any byte changed', 'must': ['taken', 'refused']},
        'C06_cut': {'bounds': '1-12 bytes removed', 'must': ['taken', 'refused']},
        'C06_end': {'bounds': 'any prefix', 'must': ['taken', 'refused']},
        'C06_three': {'bounds': '3 symbols in 10 contexts', 'must': ['taken', 'refused']},
        'C06_five': {'bounds': '5 symbols in 10 contexts', 'must': ['taken', 'refused']},
        'C06_words': {'bounds': 'words of 0-3 arbitrary bytes in 3 keyword places', 'must': ['taken', 'refused']},
        'C06_two': {'bounds': 'any byte changed and any byte inserted before it', 'must': ['taken', 'refused'], 'tier': 'thorough'},
        'C06_seven': {'bounds': '7 symbols in 10 contexts', 'must': ['taken'], 'tier': 'thorough'},
        'C06_long': {'bounds': 'scripts of 4 shapes and 53 lengths 12-20000 around powers of two and round numbers, one of the last bytes arbitrary', 'must': ['taken', 'refused']},
        'C06_deep': {'bounds': 'points nested 0-119 deep', 'must': ['taken', 'refused']},
    }},
    'C05': {'harness': 'C05.cc', 'outside': 'runs of more than 20000 blanks', 'entries': {
        'C05_blanks': {'bounds': '1-3 (or no) blanks before any symbol of a script using every construct', 'must': ['compared']},
        'C05_comment': {'bounds': 'a comment of 0-2 arbitrary bytes at every place', 'must': ['compared']},
        'C05_long': {'bounds': 'a comment of 4 arbitrary bytes and 2 blanks at 6 places', 'must': ['compared']},
        'C05_line': {'bounds': '18 kinds of trouble after blanks and comments', 'must': ['located']},
        'C05_run': {'bounds': 'runs of blanks or line breaks and comments of 53 lengths 12-20000 around powers of two and round numbers', 'must': ['compared', 'located']},
        'C05_far': {'bounds': 'trouble behind up to 100000 lines', 'must': ['located']},
        'C05_line2': {'bounds': '27 further kinds of trouble after 2 blanks or a comment', 'must': ['located']},
        'C05_again': {'bounds': '4 kinds of trouble after 6 earlier scripts', 'must': ['located']},
    }},
    'C07': {'harness': 'C07.cc', 'outside': 'names longer than 4 characters other than the real ones; two things wrong at once', 'entries': {
        'C07_subset': {'bounds': 'every subset of the known properties in 7 parts', 'must': ['accepted', 'refused']},
        'C07_twice': {'bounds': 'every property given twice, anywhere, same or other type', 'must': ['refused']},
        'C07_type': {'bounds': 'every property with every type, anywhere', 'must': ['accepted', 'refused']},
        'C07_name': {'bounds': 'every name of 1-4 word characters with every type', 'must': ['accepted', 'refused']},
        'C07_other': {'bounds': 'an unknown name of 1, 2 or 4 characters, the first symbolic, at any place in any complete set of properties of any part', 'must': ['refused']},
        'C07_place': {'bounds': 'a place in every part without one', 'must': ['refused']},
        'C07_order': {'bounds': 'every order of the properties of 5 parts', 'must': ['permuted']},
    }},
    'C08': {'harness': 'C08.cc', 'outside': 'more than two parts on a page', 'entries': {
        'C08_parts': {'bounds': 'two pages of 0-2 parts, each of 3 right and 11 faulty kinds, at most one faulty', 'must': ['refused', 'written']},
        'C08_models': {'bounds': '0-3 loads of 5 kinds, before or after the page', 'must': ['refused', 'written']},
        'C08_number': {'bounds': 'one number in [-2,2] on one of 3 pages', 'must': ['refused', 'written']},
    }},
    'C09': {'harness': 'C09.cc', 'outside': 'load paths with more than 4 free characters; absolute paths that exist', 'entries': {
        'C09_places': {'bounds': '10 load paths, every subset of 4 places', 'must': ['found', 'not found']},
        'C09_path': {'bounds': 'every load path of 0-4 characters over [ab, ]', 'must': ['found', 'not found']},
        'C09_name': {'bounds': 'every file name of 1-3 bytes', 'must': ['found', 'not found']},
        'C09_below': {'bounds': '4 spellings of a name with a directory in it, any subset of 6 files', 'must': ['found', 'not found']},
        'C09_root': {'bounds': 'a path from the root', 'must': ['found', 'not found']},
        'C09_many': {'bounds': '3 models from 4 places', 'must': ['found']},
    }},
    'C10': {'harness': 'C10.cc', 'outside': 'non-ASCII bytes; two independent edits; numbers of more than 200 characters', 'entries': {
        'C10_insert': {'bounds': 'any ASCII byte inserted anywhere in a model file', 'must': ['taken', 'refused']},
        'C10_change': {'bounds': 'any ASCII byte changed', 'must': ['taken', 'refused']},
        'C10_cut': {'bounds': '1-12 bytes removed', 'must': ['taken', 'refused']},
        'C10_corners': {'bounds': '0-6 corners, with, with a zero and without a normal, twice', 'must': ['taken', 'refused']},
        'C10_three': {'bounds': 'coordinates of 3 symbols over [019.-e+ ]', 'must': ['taken', 'refused']},
        'C10_four': {'bounds': 'coordinates of 4 symbols', 'must': ['taken', 'refused']},
        'C10_value': {'bounds': 'a width of 4 symbolic digits of 3 values each in 5 spellings (points, exponents, zeros), from 5 corners of up to 8 digits, in x and y', 'must': ['read']},
        'C10_long': {'bounds': 'files and lines of 44 lengths 12-4097, one of the last 24 bytes any ASCII byte', 'must': ['taken', 'refused']},
    }},
    'C19': {'harness': 'C19.cc', 'outside': 'directions with depth; models other than an octahedron', 'entries': {
        'C19_pairs': {'bounds': 'every pair of 8 directions as directions or points, text anywhere in [-3,3]^2', 'must': ['drawn', 'refused']},
        'C19_apex': {'bounds': 'any apex in [-3,3]^2, direction lengths 1/8..8', 'must': ['drawn']},
        'C19_views': {'bounds': '6 views, 3 scales', 'must': ['drawn']},
        'C19_any': {'bounds': 'any direction with y outside [-.01,.01] against the x axis', 'must': ['drawn']},
        'C19_depth': {'bounds': '6 pairs of directions with depth, one of any length, any apex, 3 views', 'must': ['measured']},
        'C19_parallel': {'bounds': '10 pairs of directions along one line but for rounding', 'must': ['refused']},
        'C19_small': {'bounds': 'angles of 1e-5 to .05 radians or short of a half turn by that, 4 lengths', 'must': ['drawn']},
        'C19_edgeon': {'bounds': 'any direction in line with the x axis on the page, 4 views by angles', 'must': ['refused']},
    }},
    'C20': {'harness': 'C20.cc', 'outside': 'round features of other than 8 corners; centres given more than a quarter of the radius wrong by other features', 'entries': {
        'C20_dirs': {'bounds': 'text anywhere in [-5,5]^2, 8 directions, dia and rad', 'must': ['leader along', 'leader from the rim']},
        'C20_length': {'bounds': 'direction length 1/8..8', 'must': ['leader along']},
        'C20_views': {'bounds': '6 views, 3 scales, text anywhere', 'must': ['leader along']},
        'C20_placed': {'bounds': '4 places and sizes of the feature (radius .25 to 6), text anywhere within 5 of its centre, 2 directions', 'must': ['leader along', 'leader from the rim']},
        'C20_long': {'bounds': '6 lengths of text around the value up to 63 characters, 3 scales', 'must': ['leader along', 'leader from the rim']},
        'C20_center': {'bounds': 'centre given anywhere in [-3,3]^3', 'must': ['leader along']},
        'C20_prism': {'bounds': 'prisms of 3, 6 and 16 sides at 3 distances from the origin, seen along their axis by 6 named or angle views, any place of the text', 'must': ['shown']},
        'C20_along': {'bounds': 'directions along the view, 4 views by angles', 'must': ['refused']},
        'C20_three': {'bounds': 'one triangle of height .5 to 3 at any depth', 'must': ['shown']},
        'C20_nowhere': {'bounds': 'directions zero on the page, any depth, 6 views', 'must': ['refused']},
    }},
    'C21': {'harness': 'C21.cc', 'outside': 'more than 5 points; ties between points within .01; noise on round features', 'entries': {
        'C21_closest': {'bounds': 'any 3 points in [-4,4]^2 not tied, any target, 0-4 wanted', 'must': ['closest']},
        'C21_around': {'bounds': '5 points at any distances in 5 directions, 0-6 wanted', 'must': ['closest']},
        'C21_closest4': {'bounds': 'any 4 points in [-4,4]^2 not tied, any target, 0-5 wanted', 'must': ['closest'], 'tier': 'thorough'},
        'C21_copies': {'bounds': '3 points at any distances and 2 copies at any place in the list, 0-4 wanted', 'must': ['closest']},
        'C21_ontarget': {'bounds': 'the target itself three times among two other points', 'must': ['closest']},
        'C21_ties': {'bounds': '3-5 points equally far from the target at any distance, one other at any distance, one copy, any number wanted', 'must': ['closest']},
        'C21_between': {'bounds': 'any 3 points, any target and two distances', 'must': ['between']},
        'C21_circle': {'bounds': '3-6 points of any circle, 3 starting points', 'must': ['circle']},
        'C21_far': {'bounds': '3-8 points of circles of 3 sizes at 25 places up to 10000 away', 'must': ['circle']},
        'C21_rounding': {'bounds': 'a copy of a point or of the target 1e-12 apart, at any place in the list', 'must': ['closest']},
        'C21_three': {'bounds': 'any three points spanning at least .125, up to a turn and size, anywhere within 100', 'must': ['circle']},
        'C21_near': {'bounds': 'any place in [-4,4]^3, 6 views', 'must': ['point']},
        'C21_exact': {'bounds': '6 corners above each other in pairs at any height', 'must': ['point']},
        'C21_center': {'bounds': 'two round features, place within .25 of either, also nested', 'must': ['point']},
        'C21_names': {'bounds': 'every name of 1-4 lower case letters, and of 6 ending in er, nested or not', 'must': ['known', 'unknown']},
    }},
    'C22': {'harness': 'C22.cc', 'outside': 'texts of more than 4 free bytes', 'entries': {
        'C22_place': {'bounds': '4 texts at any place in [-20,20]^2, or at none', 'must': ['line']},
        'C22_lines': {'bounds': 'every text of 0-4 bytes', 'must': ['line']},
        'C22_breaks': {'bounds': 'every arrangement of line breaks in 9 characters of two literals', 'must': ['line']},
        'C22_several': {'bounds': 'two texts of two lines at any places', 'must': ['line']},
        'C22_long': {'bounds': 'lines of 44 lengths 12-4097', 'must': ['line']},
        'C22_many': {'bounds': '1-90 lines', 'must': ['line']},
    }},
    'C23': {'harness': 'C23.cc', 'outside': "names of more than 4 free bytes; more than 12 pages with names; the clock's value", 'entries': {
        'C23_name': {'bounds': 'every --name of 0-4 bytes', 'must': ['header']},
        'C23_source': {'bounds': 'every source name of 0-4 bytes up to a NUL', 'must': ['header']},
        'C23_pages': {'bounds': '0-12 pages, time stamp and numbers on or off, page names of 4 lengths', 'must': ['page', 'header']},
        'C23_title': {'bounds': 'every page name of 0-4 bytes', 'must': ['page']},
        'C23_long': {'bounds': 'names of 44 lengths 12-4097', 'must': ['header', 'page']},
        'C23_many': {'bounds': 'up to 300 pages', 'must': ['page']},
    }},
    'C24': {'harness': 'C24.cc', 'outside': 'other kinds of part; more than 3 parts', 'entries': {
        'C24_two': {'bounds': 'any two of 7 kinds of part on 1 or 2 pages, any places', 'must': ['compared']},
        'C24_three': {'bounds': 'any three of 7 kinds of part, any places', 'must': ['compared']},
        'C24_notes': {'bounds': 'any three of 5 annotations of a drawing', 'must': ['compared']},
        'C24_again': {'bounds': '7 kinds of part run twice with 3 scripts, or none, between', 'must': ['compared']},
        'C24_shapes': {'bounds': 'two models of 3 facets of any height facing either way, 4 orders', 'must': ['compared']},
        'C24_files': {'bounds': 'a file of one name or two with other contents, sizes in [1,3]', 'must': ['compared']},
    }},
    'C15': {'harness': 'C15.cc', 'outside': 'facets that cut through each other; edges passing within .01 of a corner or side; more than two facets in front', 'entries': {
        'C15_behind': {'bounds': 'any facet with one free corner in [-3,3]^2 behind 3 others, both file orders', 'must': ['drawn', 'part drawn', 'end hidden']},
        'C15_front': {'bounds': 'the same in front', 'must': ['drawn']},
        'C15_views': {'bounds': '6 views', 'must': ['drawn']},
        'C15_turned': {'bounds': 'one coordinate free, all corner orders of both facets', 'must': ['drawn', 'part drawn', 'end hidden']},
        'C15_two': {'bounds': 'any facet with one free corner behind 3 pairs of others', 'must': ['drawn']},
        'C15_depth': {'bounds': 'two facets, 4 free depths in [-3,3], 12 arrangements', 'must': ['drawn']},
        'C15_under': {'bounds': 'an edge going under a facet from its corner in any direction, 72 orders and sides', 'must': ['drawn']},
        'C15_rounding': {'bounds': 'the same for 864 concrete placements in double precision', 'must': ['drawn']},
        'C15_standing': {'bounds': 'a facet lying or standing anywhere on another, 7 views by angles', 'must': ['seen', 'turned away']},
        'C15_ends': {'bounds': 'any facet with two free corners behind another', 'must': ['drawn'], 'tier': 'thorough'},
    }},
    'C25': {'harness': 'C25.cc', 'outside': 'longer texts around the number; conversions of more than 4 symbols', 'entries': {
        'C25_percents': {'bounds': '0-3 doubled percent signs either side, any byte before, 4 kinds', 'must': ['shown']},
        'C25_before': {'bounds': 'any 0-3 bytes before the number, 4 annotations', 'must': ['shown', 'refused']},
        'C25_after': {'bounds': 'any 0-2 bytes after the number, 4 annotations', 'must': ['shown', 'refused']},
        'C25_around': {'bounds': 'any byte before and after', 'must': ['shown', 'refused']},
        'C25_one': {'bounds': 'any symbol before the f, 4 annotations', 'must': ['shown', 'refused']},
        'C25_two': {'bounds': 'any two symbols before the f', 'must': ['shown', 'refused']},
        'C25_three': {'bounds': 'any three symbols before the f', 'must': ['shown', 'refused']},
        'C25_end': {'bounds': 'any symbol in place of the f', 'must': ['refused']},
        'C25_none': {'bounds': 'formats of no number or several', 'must': ['shown', 'refused']},
    }},
    'C26': {'harness': 'C26.cc', 'outside': 'command line parsing (absl); an output that is also the script; unreadable and unwritable by permission', 'entries': {
        'C26_flags': {'bounds': '5 script names, 5 output names: missing, present, in a directory, a directory', 'must': ['written', 'refused']},
        'C26_script': {'bounds': '0-2 free bytes in 3 scripts with 3 endings', 'must': ['written', 'refused']},
        'C26_model': {'bounds': 'any height and width', 'must': ['written']},
        'C26_names': {'bounds': 'any two names of 1-3 bytes', 'must': ['written']},
        'C26_again': {'bounds': 'older files of 4 sizes', 'must': ['written', 'refused']},
    }},
    'C27': {'harness': 'C27.cc', 'outside': 'failures that pass (EINTR); several failures; what a failed write leaves on the disk', 'entries': {
        'C27_full': {'bounds': 'full at any byte of the document', 'must': ['written', 'refused']},
        'C27_full_long': {'bounds': 'full at any byte of a document of 2-3 buffers', 'must': ['written']},
        'C27_full_any': {'bounds': 'full at any of the first 500 bytes of a document with any numbers', 'must': ['refused']},
        'C27_close': {'bounds': 'closing fails, 2 documents', 'must': ['written', 'refused']},
        'C27_script': {'bounds': 'read failure after any byte', 'must': ['written', 'stopped']},
        'C27_script_long': {'bounds': 'after 13 places of a script of 2-3 buffers', 'must': ['written']},
        'C27_model': {'bounds': 'after any byte', 'must': ['written', 'refused']},
        'C27_model_long': {'bounds': 'after 40 places of a model of several buffers', 'must': ['written', 'refused']},
        'C27_dir': {'bounds': '5 spellings of directories', 'must': ['refused']},
    }},
}

"""Writes properties.jsonl (kept as a script only so that the text stays readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


D = 'src/decoders/'
I = 'src/imageops/'

p('C01', 'Decoding any file ends in an image or an error',
  'For every path and every file content - truncated, corrupted, hostile, empty, missing, unreadable or not a raw file at all - a decode call returns to its caller with either an image or an error message. It never lets a panic out, aborts the process, exhausts memory out of proportion or runs forever. Whatever one call ran into, later decodes in the same process give the same answers as in a fresh one.',
  ['inputs', 'histories', 'fault_sequences', 'configurations'],
  'all byte strings, in particular every truncation and every corruption of a structural field of a valid file of each supported format; directory graphs with cycles and fan-out; any sequence of good and bad decodes in one process; debug and release builds',
  'The tests never decode a file: they only check the directory of flips and the database. Totality is a statement about every byte string.',
  [D+'mod.rs', D+'tiff.rs', D+'ciff.rs', D+'mrw.rs', D+'basics.rs', D+'ljpeg/mod.rs', 'src/lib.rs'],
  [('panic containment', D+'mod.rs: RawLoader::decode_safe'), ('padding against over-read', D+'mod.rs: Buffer::new'),
   ('directory walk limits', D+'tiff.rs: TiffIFD::new_root/new'), ('CIFF walk limits', D+'ciff.rs'), ('block walk', D+'mrw.rs')],
  'rawloader::decode')

p('C02', 'A decoded image always holds width x height x components samples',
  'Whenever a decode succeeds, there is at least one sample and the sample data has exactly width*height*components elements, with one or three components. Developing whatever was decoded ends in a picture of exactly three samples per pixel of its stated size, or in an error if the crops leave nothing of the image, never in a crash. This holds for every format, layout, tiling, slicing and rotation, also for damaged files that still decode.',
  ['inputs', 'configurations'],
  'every file that decodes: every format, compression, tile and slice arrangement, odd sizes, rotated sensors, and files whose size fields disagree with each other or with the compressed stream',
  'No test decodes a file, so no test looks at the shape of an image.',
  [D+'image.rs', D+'cr2.rs', D+'dng.rs', D+'raf.rs', D+'nef.rs', D+'basics.rs'],
  [('image construction', D+'image.rs: RawImage::new'), ('three component images', D+'cr2.rs, '+D+'nef.rs, '+D+'dng.rs')],
  'RawImage.width/height/cpp/data')

p('C03', 'Results do not depend on threads, history, concurrency or build',
  'Decoding the same bytes gives the same image or the same error, and developing the same image gives the same picture, bit for bit, whatever the number of worker threads and their schedule, whatever was decoded before, however many calls run at the same time, and wherever the file lies. For well-formed files it also makes no difference whether the library was built for debugging or for release.',
  ['schedules', 'histories', 'configurations'],
  'all schedules of the row, strip and tile workers, 1..N worker threads, all interleavings of concurrent calls, all call histories, both build profiles',
  'Parallel work is split by rows, strips and tiles over a thread pool; a test runs one schedule of one input, and none decodes anything.',
  [D+'basics.rs', D+'dng.rs', I+'mod.rs', D+'mod.rs', 'src/lib.rs'],
  [('row and strip workers', D+'basics.rs: decode_threaded, decode_threaded_multiline'), ('pixel line workers', I+'mod.rs: OpBuffer'),
   ('shared loader', 'src/lib.rs: LOADER')],
  'rawloader::decode, RawImage::to_rgb/to_srgb/to_linear_rgb')

p('C04', 'Files are recognised by content, in a fixed order of precedence',
  'The format of a file is decided by its bytes alone and never by its name: first the signatures of the formats with their own container, then the tags of a TIFF file (a DNG is a DNG whatever camera made it, then the maker decides, then the software that wrote it), then the exact file size of the cameras that write bare sensor data. A TIFF file of an unknown maker, a file that matches nothing, or a format that is only recognised but not supported is refused with an error.',
  ['inputs', 'configurations'],
  'all combinations of signatures, DNG marker, maker, model and software tags, and file sizes, on files whose data is readable by more than one decoder',
  'The tests never present a file to the recogniser.',
  [D+'mod.rs', D+'mrw.rs', D+'ciff.rs', D+'ari.rs', D+'x3f.rs'],
  [('dispatch', D+'mod.rs: RawLoader::get_decoder')],
  'rawloader::decode')

p('C05', 'Every camera in the database is recognised with its own attributes',
  'For every camera, alias and shooting mode in the camera database, a file from it decodes with that camera\'s names as written and cleaned up, its white level, black level, colour matrix, filter pattern and crop, with a mode overriding only what it states and everything else coming from the camera itself. An alias differs from its camera in nothing but the name, trailing blanks in the names do not matter, and a camera that is not in the database is refused by name (except in DNG files, which describe themselves).',
  ['inputs', 'configurations'],
  'all (maker, model, mode) combinations of the database, all maker spellings, all sensor depths and aspect ratios that select a mode',
  'The tests check that the table parses, not what a file from each of the several hundred cameras decodes to.',
  [D+'mod.rs', 'data/cameras', D+'rw2.rs', D+'nef.rs', D+'image.rs'],
  [('database expansion', D+'mod.rs: RawLoader::new'), ('lookup', D+'mod.rs: check_supported_with_everything'), ('mode selection', D+'rw2.rs, '+D+'nef.rs')],
  'RawImage metadata fields')

p('C06', 'The TIFF container is read by meaning, not by arrangement',
  'Two TIFF-based files that state the same tags with the same values decode identically, whatever their byte order, the order and position of directories, values and data in the file, the integer width chosen for a value, unknown extra tags, further directories, or bytes after the end. Values up to four bytes live in the entry and longer ones elsewhere, nested directories and maker notes are followed relative to the base each vendor uses, and when several directories hold a tag the outer one wins over the inner and the earlier over the later.',
  ['inputs'],
  'all rearrangements of the same logical content: byte order, entry types, layout permutations, padding, nesting, maker note styles, chains of directories',
  'The space of equivalent arrangements of one file is unbounded and no test parses a TIFF file.',
  [D+'tiff.rs'],
  [('directory parser', D+'tiff.rs: TiffIFD'), ('values', D+'tiff.rs: TiffEntry'), ('maker notes', D+'tiff.rs: TiffIFD::new_makernote')],
  'rawloader::decode')

p('C07', 'Uncompressed sensor data is unpacked exactly',
  'For every uncompressed layout - 8, 10, 12, 14 and 16 bits, big and little endian, packed, padded, left-aligned, interlaced, with control bytes, table-coded, or laid out for a rotated sensor - each sample of the image equals the bits that the file stores for that row and column, and nothing else. This holds for every row and column, up to the last ones, and for every container that uses the layout.',
  ['inputs'],
  'all sample values, all image sizes the layout admits, all containers and byte orders',
  'The unpackers are chains of shifts over groups of bytes; a sample file exercises one layout at one size, and the repository ships none.',
  [D+'packed.rs', D+'dng.rs', D+'nef.rs', D+'raf.rs', D+'orf.rs', D+'mrw.rs', D+'arw.rs', D+'nrw.rs', D+'nkd.rs', D+'mos.rs'],
  [('unpackers', D+'packed.rs'), ('sensor rotation', D+'raf.rs: rotate_image')],
  'RawImage.data')

p('C08', 'Lossless JPEG data is decoded exactly, however it is cut up',
  'For every lossless JPEG stream within the standard - any valid code tables, any of the supported predictors, precisions and component counts, marker stuffing and all difference categories - the decoded samples are those the stream encodes. Cutting the image into slices or tiles, including partial ones at the right and bottom, interleaving or subsampling its components puts every sample at the place the container gives it. A stream whose header is broken or asks for something unsupported, such as restart intervals, is refused instead of being decoded to something else.',
  ['inputs', 'configurations'],
  'all streams: code tables with lengths 1..16, difference categories 0..16, predictors, point transforms, precisions, 1/2/3/4 components, 4:2:2 and 4:2:0 sampling, slice and tile arrangements',
  'Huffman streams are unboundedly varied and no stream is in the test suite.',
  [D+'ljpeg/mod.rs', D+'ljpeg/huffman.rs', D+'ljpeg/decompressors.rs', D+'pumps.rs', D+'cr2.rs', D+'dng.rs', D+'tfr.rs'],
  [('marker parsing', D+'ljpeg/mod.rs'), ('code tables', D+'ljpeg/huffman.rs'), ('predictors', D+'ljpeg/decompressors.rs'), ('bit reader', D+'pumps.rs'), ('tiles', D+'dng.rs: decode_compressed'), ('slices', D+'cr2.rs')],
  'RawImage.data')

p('C09', 'Nikon, Pentax, Samsung and Sony compression is decoded exactly',
  'For every stream in the compressed formats of Nikon (lossless and lossy, 12 and 14 bit, split tables), Pentax, Samsung (all three generations) and Sony (both generations and the encrypted one), each decoded sample is the one the format defines for that stream, with tone curves and dithering applied as defined and values saturating instead of wrapping around. Truncated values, extreme differences and every code length are included.',
  ['inputs'],
  'all bit streams and parameter blocks of each format, within the sizes explored',
  'The formats have no test files in the repository and their state machines have unboundedly many inputs.',
  [D+'nef.rs', D+'pef.rs', D+'srw.rs', D+'arw.rs', D+'pumps.rs', D+'basics.rs'],
  [('Nikon', D+'nef.rs'), ('Pentax', D+'pef.rs'), ('Samsung', D+'srw.rs'), ('Sony', D+'arw.rs'), ('curve and dither', D+'basics.rs: LookupTable')],
  'RawImage.data')

p('C10', 'Olympus, Panasonic, Canon CRW, Kodak, Phase One and sNEF are decoded exactly',
  'For every stream in the compressed formats of Olympus, Panasonic, Canon CRW, Kodak DCR and Phase One, and for the reduced Nikon format that stores colour differences, each decoded sample is the one the format defines for that stream, for every row and column, block boundary and segment length. Values saturate instead of wrapping around.',
  ['inputs'],
  'all bit streams of each format, within the sizes explored',
  'The formats have no test files in the repository and their state machines have unboundedly many inputs.',
  [D+'orf.rs', D+'rw2.rs', D+'crw.rs', D+'dcr.rs', D+'iiq.rs', D+'nef.rs', D+'pumps.rs'],
  [('Olympus', D+'orf.rs'), ('Panasonic', D+'rw2.rs'), ('Canon CRW', D+'crw.rs'), ('Kodak', D+'dcr.rs'), ('Phase One', D+'iiq.rs'), ('sNEF', D+'nef.rs: decode_snef_compressed')],
  'RawImage.data')

p('C11', 'White balance is the one the camera recorded',
  'The white balance of a decoded image gives each of red, green, blue and the fourth colour the multiplier that the file records for it, for every place and form in which the supported makers store it: plain tags, maker notes, binary blocks at camera dependent offsets, reciprocals, fixed point, floating point and encrypted blocks. For formats and cameras that record none, the coefficients say so by not being numbers instead of carrying made-up values.',
  ['inputs', 'configurations'],
  'all recorded multipliers, all storage variants and versions, all cameras with their own offset or order',
  'Each variant is a separate piece of parsing code; no test reads a white balance.',
  [D+'arw.rs', D+'nef.rs', D+'cr2.rs', D+'crw.rs', D+'orf.rs', D+'rw2.rs', D+'pef.rs', D+'srw.rs', D+'raf.rs', D+'mrw.rs', D+'kdc.rs', D+'erf.rs', D+'dcr.rs', D+'mos.rs', D+'iiq.rs', D+'nrw.rs', D+'dng.rs', D+'tfr.rs', D+'ari.rs'],
  [('per format', 'get_wb in each decoder'), ('decryption', D+'arw.rs: sony_decrypt, '+D+'nef.rs: get_wb')],
  'RawImage.wb_coeffs')

p('C12', 'Black and white levels come from the right source',
  'The black level of each colour is the average of the masked border pixels of that colour where the camera has such a border, otherwise what the file records where the format records it, and otherwise the camera\'s own value; the white level is the file\'s for formats that record it and the camera\'s otherwise. The average is that of all masked pixels rounded down, on any image size and for any content, a pixel in both borders counting in each; of several recorded white levels the first applies.',
  ['inputs', 'configurations'],
  'all masked border contents and sizes, all recorded levels, all cameras with masked areas, full size images',
  'No test decodes a file with a masked border or recorded levels.',
  [D+'image.rs', D+'dng.rs', D+'pef.rs', D+'iiq.rs', D+'cr2.rs', D+'nef.rs', D+'mod.rs'],
  [('masked areas', D+'image.rs: RawImage::new'), ('recorded levels', D+'dng.rs: get_blacklevels/get_whitelevels, '+D+'pef.rs: get_blacklevels, '+D+'iiq.rs')],
  'RawImage.blacklevels/whitelevels')

p('C13', 'Filter pattern and crop stay aligned',
  'The colour reported for a pixel of the cropped image is the colour the uncropped pattern has at the corresponding pixel, for every pattern (2x2, 6x6 and the odd ones), crop and position. Shifting a pattern is exact: shifts compose by addition and a shift by the pattern\'s own size changes nothing; the pattern tag of a file and the active area it states turn into the pattern and the four crop margins of the image, and a mosaic file whose pattern tag is missing, has another size or names other colours than red, green and blue is refused.',
  ['inputs', 'configurations'],
  'all patterns of the supported sizes, all shifts and positions, all crop margins and active areas',
  'The tests try a few shifts of single patterns.',
  [D+'cfa.rs', D+'image.rs', D+'dng.rs'],
  [('pattern', D+'cfa.rs: CFA::new/shift/color_at/new_from_tag'), ('crop', D+'image.rs: cropped_cfa, '+D+'dng.rs: get_crops')],
  'CFA, RawImage::cropped_cfa')

p('C14', 'Developed pictures have the documented size',
  'A developed picture never exceeds the maximum width and height asked for and is never larger than the cropped original; when the original does not fit, the picture touches one of the two limits and keeps the proportions to within a pixel, and when it fits, or when either limit is zero (which switches both off), it has exactly the cropped size. The limits apply to the picture as delivered, after it was turned upright, the data has exactly width*height*3 elements, and no side is ever zero.',
  ['inputs', 'configurations'],
  'all image sizes, crops, orientations and maximum sizes, mosaic and full colour images',
  'The relation is over four numbers and eight orientations; no test develops an image.',
  [I+'mod.rs', I+'demosaic.rs', I+'transform.rs', I+'gofloat.rs'],
  [('size calculation', I+'demosaic.rs: demosaic_and_scale'), ('limits for turned images', I+'mod.rs'), ('crop', I+'gofloat.rs')],
  'RGBImage/SRGBImage width, height, data')

p('C15', 'Orientation is applied exactly',
  'The developed picture is the unturned one with precisely the flips and turns that the recorded orientation stands for: every pixel of the result is the pixel of the upright mapping, with width and height exchanged for the four orientations that exchange them. A missing or invalid orientation value counts as unknown and leaves the picture as stored.',
  ['inputs', 'configurations'],
  'all eight orientations and all other values, all image sizes including one pixel wide or high and odd ones, all formats that record an orientation',
  'The unit tests turn a 3x2 grid of letters; size, pixel layout and the path from the file are not covered.',
  [I+'transform.rs', D+'mod.rs', I+'mod.rs'],
  [('flips', D+'mod.rs: Orientation::to_flips'), ('turning', I+'transform.rs: rotate')],
  'to_rgb/to_srgb/to_linear_rgb')

p('C16', 'Developing takes every colour from the pixels of that colour around it',
  'In a picture developed at full size, each pixel keeps its own sample for its own colour and takes every other colour as the average of the samples of that colour among its eight direct neighbours inside the crop, if there is one; pixels outside the crop never contribute, full colour images use exactly their own three samples, and monochrome images come out neutral. In a reduced picture each colour of a pixel is an average of samples of that colour within or directly next to the area of the original which that pixel covers, so an evenly coloured area keeps its colour and no part of the image moves elsewhere.',
  ['inputs', 'configurations'],
  'all sample values, filter patterns, crops, sizes, reduction factors and positions including borders and corners',
  'No test develops an image.',
  [I+'demosaic.rs', I+'gofloat.rs'],
  [('full size', I+'demosaic.rs: full'), ('reduced', I+'demosaic.rs: scaled, scale_down'), ('crop and conversion', I+'gofloat.rs')],
  'to_linear_rgb')

p('C17', 'Levels, white balance and tone stay in range and in order',
  'Each colour is scaled so that its black level becomes zero and its white level becomes full, and white balance scales colours relative to each other only, so multiplying all coefficients by a constant, or recording none (or unusable ones) instead of the camera\'s neutral ones, changes nothing. Gamma corrected values always are numbers between zero and one, brighter samples never give a darker neutral pixel, and black, middle grey and saturated white come out as black, middle grey and neutral white. The gamma picture is the linear one with the standard video curve (Rec. 709) applied, and the 8 bit picture is the gamma picture times 255 to within one level, without wrapping around.',
  ['inputs', 'configurations'],
  'all sample values, black and white levels, white balances (also missing ones), filter patterns',
  'No test develops an image.',
  [I+'level.rs', I+'curves.rs', I+'gamma.rs', I+'colorspaces.rs', D+'image.rs'],
  [('levels', I+'level.rs'), ('curve', I+'curves.rs'), ('gamma', I+'gamma.rs'), ('8 bit', D+'image.rs: to_srgb')],
  'to_rgb/to_srgb/to_linear_rgb')

p('C18', 'Colour conversion inverts the camera matrix and keeps white neutral',
  'For every camera matrix the conversion offered to the user takes the camera\'s response to any scene colour back to that colour, normalised so that equal camera values after white balance are white, and the neutral white balance is the one that makes the camera\'s response to white equal in all channels. It works for three and four colour sensors (where it is the best fit of the four values) and for every camera in the database, and the developed picture renders camera neutral as grey and a scene colour of middle lightness as that colour.',
  ['inputs', 'configurations'],
  'all invertible camera matrices, all cameras of the database, three and four colours',
  'No test looks at a matrix.',
  [D+'image.rs', I+'colorspaces.rs'],
  [('inversion', D+'image.rs: xyz_matrix_and_neutralwb, pseudoinverse'), ('use', I+'colorspaces.rs')],
  'RawImage::cam_to_xyz, neutralwb')

p('C19', 'The command line tool writes the picture it decoded or reports why not',
  'Given a file it can decode, the tool ends with status zero and writes, to the given name or else to the input name with .ppm added, a binary PPM whose size and bytes are those of the full size developed picture, touches no other file, and prints the camera names, size, levels and crops of the image. Without arguments it prints its usage and ends with status one, and if the input cannot be decoded (when no file is touched) or the output cannot be created or written completely it says so in a line starting with ERROR and ends with status two.',
  ['inputs', 'fault_sequences'],
  'all decodable and undecodable inputs, argument lists, and output locations that can or cannot be written',
  'No test runs the tool.',
  ['src/bin/rawloader.rs'],
  [('tool', 'src/bin/rawloader.rs: main')],
  'process exit status, stdout, output file')

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')

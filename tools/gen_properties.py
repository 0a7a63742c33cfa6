#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the list is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("A01","Result lists are complete, sorted, in range and end with the input size",
 "Every successful result list for a dimension of length L holds each size at most once, in non-increasing order of confidence, and ends with exactly one entry (L, -1). All other entries are the sizes x with range <= x < L-range (range is 1 for the zerox method; none at all if range >= (L+1)/2) whose confidence is in 0..1 and at least the threshold, and no such size is missing.",
 ["inputs","configurations"],"every image, image size, method, range and threshold",
 "the C tests that look at non-trivial result lists need two sample files that are not in the repository, so only the trivial one-entry list of a 2x2 checkerboard is ever checked",
 ["lib/analysis.c"],[("setup_dimension","lib/analysis.c"),("generate_dimension_results","lib/analysis.c"),("sortres","lib/analysis.c")],
 [("xbound/ybound","half open interval of candidate sizes","lib/analysis.c")],["resdet_analysis_results","resdetect","resdetect_file"])

p("A02","Confidences are the method's documented measure of the image's 2-D DCT",
 "With C the 2-D DCT-II of the image, n the other dimension's length and pairs (l,r) = C at x-i and x+i for i=1..range in each of the n lines, the confidence at x is the fraction of the n*range pairs with: sign - opposite signs; mag - opposite signs and |l| < 2|r|. zerox: the fraction of the n lines where C[x-1] and C[x+1] have opposite signs and C[x] lies strictly between them. orig: as sign if, in the absolute values of C averaged over the lines, the sums of the range values before and after x both exceed range times the value at x and are closer to each other than either is to that; otherwise 0.",
 ["inputs","configurations"],"every finite image of every size, every method, both dimensions, every range",
 "no stable test runs a detection method on an image larger than 4x1 pixels; whether the counted quantity is right can only be decided for arbitrary spectra",
 ["lib/methods.c","lib/analysis.c","lib/transform/fftw.c","lib/transform/kiss_fft.c"],
 [("detect_method_sign","lib/methods.c"),("detect_method_magnitude","lib/methods.c"),("detect_method_original","lib/methods.c"),("detect_method_zerocrossing","lib/methods.c"),("resdet_transform","lib/transform")],
 [("f","coefficients of the last image","lib/analysis.c")],["resdet_analyze_image","resdet_analysis_results"])

p("A03","The source size of an upscaled image is the best guess",
 "If the spectrum of an image is odd about a column (row) s of a candidate size over the search range, as it is for an image upscaled from width (height) s, then s is reported for that dimension with confidence 1 by the default method and no other size precedes it unless it too has confidence 1, so the first entry is s when it is the only such size. If no candidate reaches the threshold the list has only the input size, which is then the best guess.",
 ["inputs","configurations"],"every image with such a spectrum, every position s, both dimensions, multi-frame sequences of such images",
 "the two tests of this use one 768x768 sample image that is missing from the repository and never run",
 ["lib/analysis.c","lib/methods.c"],[("detect_method_sign","lib/methods.c"),("sortres","lib/analysis.c")],[],["resdet_analysis_results","resdet CLI -v1"])

p("A04","A sequence's result is the mean over its frames, however it is fed in",
 "After n analyzed frames the confidence of each size is the mean of the confidences the n frames have on their own, whatever their order; obtaining results any number of times, or between frames, returns the same lists for the same frames and affects nothing later. Analyzing the frames one at a time, passing them at once to the in-memory detection function, or detecting from a file holding them gives the same lists.",
 ["inputs","histories"],"every sequence of frames, every interleaving of analyze and results calls, every entry point",
 "the multi-frame tests need a missing sample video and the others never analyze two different frames",
 ["lib/analysis.c","lib/resdetect.c"],[("nimages accumulation","lib/analysis.c"),("resdetect","lib/resdetect.c"),("resdetect_file","lib/resdetect.c")],
 [("nimages","number of frames analyzed","lib/analysis.c"),("xresult/yresult","per size sums","lib/analysis.c")],["resdet_analysis_results","resdetect","resdetect_file"])

p("A05","An analysis or parameter operation that fails has no effect",
 "An image that is rejected (absent, or with a NaN or infinite pixel anywhere) or cannot be analyzed for lack of memory leaves the analysis as it was: later results equal those of the accepted images alone, and retrying works. Rejected parameter values leave the parameters unchanged, and failing result or detection calls leave analyses and parameters usable.",
 ["histories","fault_sequences","inputs"],"every history of calls with failing calls at any place, including an allocation failure at any allocation",
 "tests make one failing call and stop; they never continue the same analysis afterwards or make an allocation fail",
 ["lib/analysis.c","lib/methods.c","lib/util.c"],[("resdet_analyze_image","lib/analysis.c"),("resdet_parameters_set_*","lib/util.c")],
 [("nimages","number of frames analyzed","lib/analysis.c"),("xresult/yresult","per size sums","lib/analysis.c")],["resdet_analyze_image","resdet_analysis_results"])

p("A06","Analyses, images and parameters are independent of each other",
 "Operations on one analysis, image handle or parameter set never change what another returns, however calls on different handles are interleaved, in one thread or, with a backend that needs no preparation for threads, in several. Each handle behaves as if it were the only one, and no call modifies the images it is given.",
 ["schedules","histories"],"every interleaving of operations on several handles, sequential and concurrent",
 "tests use one handle at a time in a single thread",
 ["lib/analysis.c","lib/image.c","lib/image/pgm.c","lib/image/pfm.c","lib/image/y4m.c","lib/transform/kiss_fft.c","lib/methods.c"],
 [("per-handle contexts only","lib")],[],["whole public API"])

p("A07","Analysis and detection calls report errors and set outputs as documented",
 "Result and detection calls null every supplied list and zero every supplied count before anything can fail, and on any error all of them stay null and zero; a list without its count is a parameter error, as is a missing image or analysis, no analyzed image is 'no images', zero dimensions are 'invalid image', and excessive dimensions 'too big'. Either list may be omitted without affecting the other, and a NULL method, parameters or error pointer selects the defaults or is ignored.",
 ["inputs","histories","fault_sequences"],"every combination of supplied and omitted arguments, in every state of the analysis, with and without allocation failures",
 "tests try a handful of the argument combinations in a single state and never with allocation failures",
 ["lib/analysis.c","lib/resdetect.c"],[("resdet_analysis_results","lib/analysis.c"),("resdetect","lib/resdetect.c"),("resdetect_file","lib/resdetect.c"),("resdet_create_analysis","lib/analysis.c")],
 [],["resdet_create_analysis","resdet_analyze_image","resdet_analysis_results","resdetect","resdetect_file"])

p("A08","Parameters are validated, defaulted, copied and honored",
 "A range is accepted iff nonzero, a threshold iff it is a number in 0..1, a compression filter iff at most 31, and the last accepted value of each is the one used; unset ones default to the library's range, the method's own threshold and no filter. An analysis uses the values its parameters had when it was created, regardless of later changes to or the release of them, and never modifies them.",
 ["inputs","histories"],"every value of each parameter, including NaN, infinities, negative zero and the extremes, and every order of setting, creating and analyzing",
 "tests try a few values through the setters, and a single effect of them through the Python bindings",
 ["lib/util.c","lib/analysis.c"],[("resdet_parameters_set_*","lib/util.c"),("resdet_create_analysis","lib/analysis.c")],
 [("params","copy of the parameters","lib/analysis.c")],["resdet_parameters_set_range","resdet_parameters_set_threshold","resdet_parameters_set_compression_filter","resdet_analysis_results"])

p("A09","The compression filter only removes results, by position alone",
 "With a compression filter the result list is the one without it minus some entries: confidences are unchanged, the final input-size entry always stays, and a value of 0 removes nothing. Which sizes are removed depends only on the filter value, the range and the dimension's length, never on the image, the confidences, the method's measure, the threshold or the number of frames.",
 ["inputs","configurations"],"every filter value 0..31, size, range, method, threshold and image",
 "one test checks the number of results for a 4x1 image and a single filter value",
 ["lib/analysis.c"],[("generate_dimension_results","lib/analysis.c")],[],["resdet_analysis_results"])

p("A10","Detection treats width and height alike and ignores scale and sign",
 "Transposing every frame swaps the width and height results. Multiplying every frame by a nonzero constant, positive or negative, that moves no sample or coefficient out of the normal range of single precision, leaves the results unchanged.",
 ["inputs","configurations"],"every image sequence, every method, square and non-square sizes including one-pixel-wide images",
 "no test compares related images, and the non-trivial ones that exist use square images only",
 ["lib/analysis.c","lib/methods.c","lib/transform/fftw.c","lib/transform/kiss_fft.c"],[("stride/dist arguments of the methods","lib/analysis.c"),("resdet_create_plan","lib/transform")],[],["resdet_analysis_results","resdetect"])

p("A11","Results do not depend on how the library was configured",
 "Builds with either FFT backend, any supported coefficient and intermediate precision, a pixel limit, and with or without the optional image readers report the same results for the same images, up to rounding of coefficients that are equal or zero. A build's default range is used exactly when no range is set.",
 ["configurations","inputs"],"every supported build configuration and every image",
 "the tests run in two configurations, with only trivial images",
 ["lib/precision.h","lib/resdet_internal.h","lib/transform/fftw.c","lib/transform/kiss_fft.c","lib/methods.c"],[("coeff/intermediate types","lib/precision.h"),("rdint_index/rdint_storage","lib/resdet_internal.h")],[],["resdet_analysis_results","resdet_default_range"])

p("R01","Reading delivers the frames of a file in order, once each, then end of file",
 "Successive reads of an image handle return exactly the frames of the file in order; after the last one every further read returns false without an error. A still image has one frame. Width and height are those of the file, and the buffer returned by opening holds one frame.",
 ["inputs","histories"],"every well-formed file with any number of frames, for each reader, and every number of reads",
 "tests read one 2x2 two-frame checkerboard per format, too small and regular to show misplaced or stale data",
 ["lib/image.c","lib/image/pgm.c","lib/image/pfm.c","lib/image/y4m.c","lib/image/libpng.c","lib/image/libjpeg.c","lib/image/ffmpeg.c","lib/image/magickwand.c"],
 [("read_frame","lib/image/*.c")],[("header_consumed","PFM: next frame's header already parsed","lib/image/pfm.c"),("eof","still image was consumed","lib/image/pgm.c")],["resdet_read_image_frame"])

p("R02","Seeking n frames is the same as reading and discarding n frames",
 "Seeking by n moves past exactly n frames from the current position, returning true, if that many remain; otherwise it returns false without an error at the end of a well-formed file, where later reads find no frame. The progress callback is called with 1, 2, ... for each frame passed and the given context, seeking by zero changes nothing and succeeds, and reads and seeks may be mixed in any order.",
 ["inputs","histories"],"every mix of reads and seeks with any offsets, for each reader, on files and pipes, with and without a progress callback",
 "tests seek once in a two-frame file; mixing, zero offsets before a read, frames of differing format and pipes are not covered",
 ["lib/image.c","lib/image/pgm.c","lib/image/pfm.c","lib/image/y4m.c","lib/image/libpng.c","lib/image/libjpeg.c","lib/image/ffmpeg.c","lib/image/magickwand.c"],
 [("seek_frame","lib/image/*.c"),("resdet_fskip","lib/image.c")],[("header_consumed","PFM: next frame's header already parsed","lib/image/pfm.c"),("seekable","skip by seeking rather than reading","lib/image/y4m.c")],["resdet_seek_frame","resdet_read_image_frame"])

p("R03","PGM, PFM and Y4M samples decode to the right pixel at the right place",
 "A PGM sample v with maximum m reads as v/m, a Y4M luma sample v of d bits as v/(2^d-1) with samples over 8 bits stored little-endian in two bytes, and a PFM sample as its stored float in either byte order with rows stored bottom to top and color pixels averaged. Chroma and alpha data of any Y4M colorspace (mono, 4:2:0, 4:1:1, 4:2:2, 4:4:4, 4:4:4 with alpha, 8 to 16 bits) and any size, odd ones included, are skipped exactly.",
 ["inputs"],"every file of these formats: sizes, bit depths, byte orders, colorspaces and sample values",
 "tests decode 2x2 images whose samples are all 0 or the maximum",
 ["lib/image/pgm.c","lib/image/pfm.c","lib/image/y4m.c"],[("pgm_reader_read_frame","lib/image/pgm.c"),("read_pfm_plane_gray/rgb","lib/image/pfm.c"),("y4m_reader_open/read_frame","lib/image/y4m.c")],
 [("uv_plane_size","bytes of chroma per frame","lib/image/y4m.c")],["resdet_read_image_frame","resdet_read_image"])

p("R04","Headers are accepted exactly when well-formed, and no file can crash a reader",
 "PGM, PFM and Y4M files whose header is well-formed (comment lines after the PGM/PFM magic, any whitespace between fields, Y4M tags in any order, unknown tags ignored, per-frame parameters) open with the stated size; a wrong magic, a missing, malformed or zero size, a PGM maximum of 0 or over 255, an unsupported colorspace or depth, or a header cut short gives an error, a null handle, zero sizes and a null buffer. A PFM or Y4M sequence reports an error at a frame whose header is malformed or differs in size, and no sequence of bytes and calls makes a reader crash or touch memory it does not own.",
 ["inputs"],"every byte string presented as a file of each native format",
 "tests have one corrupt header and one comment per format",
 ["lib/image.c","lib/image/pgm.c","lib/image/pfm.c","lib/image/y4m.c"],[("open","lib/image/pgm.c"),("read_header","lib/image/pfm.c"),("read_frame_header","lib/image/y4m.c"),("open_image","lib/image.c")],[],["resdet_open_image","resdet_open_image_with_reader","resdet_read_image_frame"])

p("R05","A truncated file yields its complete frames and then an error",
 "For a PGM, PFM or Y4M file cut off after any number of bytes, reading returns exactly the frames that are completely present, unchanged, and then fails: with an 'invalid image' error if the cut is within a frame or its header, and as a plain end of file only if the cut is exactly between frames of a sequence. This holds for frames that are read or, in a sequence, skipped by seeking.",
 ["inputs","crash_points"],"every truncation point of every well-formed file, read or skipped, from a file or a pipe",
 "tests truncate one 2x2 image per format within its pixel data",
 ["lib/image.c","lib/image/pgm.c","lib/image/pfm.c","lib/image/y4m.c"],[("resdet_fskip","lib/image.c"),("read_frame","lib/image/*.c"),("read_frame_header","lib/image/y4m.c")],[],["resdet_read_image_frame","resdet_seek_frame"])

p("R06","A pipe or standard input reads the same as a file",
 "The native readers give the same sizes, frames, seek results and errors for the same bytes whether they come from a seekable file, a pipe, or standard input (\"-\") that is either, and however the pipe's data is split into writes. Standard input is never closed by the library.",
 ["inputs","schedules"],"every file of these formats, every mix of reads and seeks, every chunking of the pipe",
 "tests only ever open regular files by name",
 ["lib/image.c","lib/image/pgm.c","lib/image/pfm.c","lib/image/y4m.c"],[("resdet_fskip","lib/image.c"),("y4m_reader_open","lib/image/y4m.c"),("pfm_reader_seek_frame","lib/image/pfm.c")],[("seekable","skip by seeking rather than reading","lib/image/y4m.c")],["resdet_open_image","resdet_read_image_frame","resdet_seek_frame"])

p("R07","The right reader is chosen by type, extension or name",
 "The reader is chosen by the given type if there is one, which is a MIME type if it contains a slash and an extension otherwise, and else by the file name's extension, in any letter case; the first matching reader in the listed order is used and a general-purpose one only when no specific one matches. A reader asked for by name, in any letter case, is the one used, and without a matching reader the error is 'unsupported'; open calls without a name, width or height are parameter errors.",
 ["inputs","configurations"],"every type string, file name, reader name and set of built-in readers",
 "tests cover each extension once in lower case in one configuration",
 ["lib/image.c","lib/image_readers.c"],[("resdet_open_image","lib/image.c"),("ext_from_mimetype","lib/image.c"),("resdet_strieq","lib/image.c"),("resdet_image_readers","lib/image_readers.c")],[],["resdet_open_image","resdet_open_image_with_reader","resdet_list_image_readers"])

p("R08","Reading an image in bulk equals reading it frame by frame",
 "The bulk read function returns the sizes, the number of frames and the contiguous frames that opening the same file and reading until the end would give, and if that would end in an error it returns this error and no image. A sequence without frames is not an error.",
 ["inputs"],"every well-formed, truncated or malformed file with any number of frames",
 "tests bulk-read a two-frame 2x2 file",
 ["lib/image.c"],[("resdet_read_image","lib/image.c")],[],["resdet_read_image"])

p("R09","The pixel limit is enforced exactly, for every entry point",
 "In a build with a pixel limit P, images and analyses of up to and including P pixels work and larger ones fail with 'too big', in every reader and entry point; without one, dimensions whose buffers could not be represented fail with 'too big' rather than overflowing.",
 ["inputs","configurations"],"every width and height around the limit and around the overflow bounds, for each native format and entry point",
 "tests only try one huge size without a configured limit",
 ["lib/resdet_internal.h","lib/image.c","lib/analysis.c","lib/image/y4m.c"],[("resdet_dims_exceed_limit","lib/resdet_internal.h"),("open_image","lib/image.c"),("resdet_create_analysis","lib/analysis.c")],[],["resdet_open_image","resdet_read_image","resdet_create_analysis","resdetect"])

p("R10","PNG, JPEG and other external formats read as correct luminance frames",
 "PNG images of any color type, bit depth, transparency and interlacing read as the mean of their 8-bit color samples over 255 and JPEG images as their luma over 255, at the right positions; lossless multi-frame files read through the FFmpeg and MagickWand readers give each frame in order. PNG files cut off within the image data or failing their checksums, and JPEG files that have no luma (CMYK), are errors. Other damaged files give an error or an image, never a crash.",
 ["inputs"],"every PNG color type, bit depth and interlacing, gray and color, baseline and progressive JPEG, multi-frame files, and every damage to these",
 "tests decode a single 2x2 gray checkerboard per reader",
 ["lib/image/libpng.c","lib/image/libjpeg.c","lib/image/ffmpeg.c","lib/image/magickwand.c"],[("libpng_reader_open/read_frame","lib/image/libpng.c"),("libjpeg_reader_read_frame","lib/image/libjpeg.c"),("read_frame","lib/image/ffmpeg.c"),("magickwand_reader_read_frame","lib/image/magickwand.c")],[],["resdet_read_image_frame","resdet_seek_frame"])

p("R11","A file that cannot be read fails with the error that says why",
 "If the system cannot open the file, because it or its directory does not exist, part of its path is no directory, or the name is too long or loops, then opening, bulk reading and detection fail with the negated system error for that, in every reader (or 'no such file' in the MagickWand reader). Content that is not of the format of a native reader, libpng or libjpeg is an 'invalid image', and content of no format, under a name that tells none, is 'unsupported' by the MagickWand reader. Running out of memory or file descriptors in a native reader is reported as that. Outputs are null and zero then.",
 ["inputs","configurations","fault_sequences"],"every way a path can fail to name a file, every content, reader, entry point and configuration",
 "tests open one missing file",
 ["lib/image.c","lib/image/pgm.c","lib/image/pfm.c","lib/image/y4m.c","lib/image/libpng.c","lib/image/libjpeg.c","lib/image/ffmpeg.c","lib/image/magickwand.c"],[("open_image","lib/image.c"),("rderror_from_averror","lib/image/ffmpeg.c"),("magickwand_reader_open","lib/image/magickwand.c")],[],["resdet_open_image","resdet_open_image_with_reader","resdet_read_image","resdetect_file"])

p("M01","Every resource is released, and running out of memory is reported cleanly",
 "Once handles are closed and returned buffers freed, no memory or file descriptor remains in use, whatever calls succeeded or failed before. If any allocation fails, the call reports 'out of memory' (or completes correctly), returns no partial output, leaks nothing and does not crash.",
 ["fault_sequences","histories","inputs"],"an allocation failure at every allocation of every entry point, and every history of calls",
 "no test makes an allocation fail or counts resources",
 ["lib/analysis.c","lib/image.c","lib/resdetect.c","lib/image/pgm.c","lib/image/pfm.c","lib/image/y4m.c","lib/transform/kiss_fft.c","lib/transform/fftw.c","lib/methods.c"],
 [("error paths","lib")],[],["whole public API"])

p("U01","Method, reader and error queries are consistent with each other",
 "The method list is sign, mag, orig, zerox with positive thresholds up to 1, its first entry is the default, and a lookup by name returns that very entry or nothing; every listed reader can be selected by its name. Every error code from 0 to the maximum has a message, nonempty except for success, negative codes give the system's message for that number, and larger codes give none.",
 ["inputs"],"every name and every error code",
 "tests sample a few names and codes",
 ["lib/util.c","lib/methods.c","lib/image_readers.c"],[("resdet_get_method","lib/util.c"),("resdet_error_str","lib/util.c"),("resdet_list_image_readers","lib/image_readers.c")],[],["resdet_methods","resdet_get_method","resdet_error_str","resdet_get_max_error","resdet_list_image_readers"])

p("C01","The command line tool prints exactly the library's results",
 "For a readable input, -v1 prints the best guess width and height, -v2 and -v3 all widths and then all heights in order of confidence (with the confidence for -v3), and the default output the given size, the best guess, whether it is 'not upsampled', and the table of all other sizes with their confidence in percent; -v0 prints nothing and exits with 0 iff some size besides the input's was found. The method, type, reader, range, threshold (a percentage) and filter options have the effect of the corresponding library arguments, a filter of \"auto\" being 3 if the last extension of the file's name is jpg, jpeg, mp4 or mkv, 2 for webp and webm, 5 for avif and heic (in any case), and none otherwise, and apart from -v0 the exit status is 0.",
 ["inputs","configurations"],"every input and combination of options",
 "the shell tests of the tool are not part of the suite that runs, and need a missing sample file",
 ["src/resdet.c"],[("main","src/resdet.c")],[],["resdet command line"])

p("C02","The command line tool rejects invalid options and input with a status of 1",
 "Unknown methods and readers, invalid threshold, range, filter, offset and frame count values, a type together with a reader, a missing argument, and unreadable, malformed, truncated or empty input each print a message to standard error (the library's message for its error, where the library refuses the input), nothing but the usage or reader list to standard output, and exit with 1. The help, version and reader list options print to standard output and exit with 0.",
 ["inputs"],"every invalid value of each option, and every unreadable input, for every verbosity",
 "the shell tests of the tool are not part of the suite that runs",
 ["src/resdet.c"],[("main","src/resdet.c")],[],["resdet command line"])

p("C03","The offset and frame count options select exactly those frames",
 "With -o o and -n n the command line tool analyzes exactly the frames o to o+n-1 of the input (to the end without -n or if there are fewer) and does not read beyond them, so damage after them goes unnoticed. An offset past the end, or with no frame left, is an error with status 1, and the progress option changes nothing but standard error, where it announces the number of each frame skipped and analyzed.",
 ["inputs"],"every sequence length, offset and frame count, from a file or standard input, and damage at any frame",
 "no test uses these options with more than a trivial file",
 ["src/resdet.c"],[("main","src/resdet.c")],[],["resdet command line"])

p("C04","The imgread tool writes exactly the frames the library reads",
 "The imgread tool writes each frame of its input, in order, to its output file as a little-endian grayscale PFM image of the input's size, bottom row first, so that reading the output gives the same frames. It exits with 0 iff the input was read to its end and the output could be opened; otherwise it exits with 1 and a message (the library's for its error, if the input is at fault), and the output holds the frames read before the error.",
 ["inputs"],"every readable, truncated or malformed input of every format",
 "the tool has no tests of its own in the suite that runs",
 ["src/imgread.c"],[("main","src/imgread.c")],[],["imgread command line"])

p("T01","The profile tool counts exactly what each method finds and misses",
 "For each image of the dictionary, in order, and for each method with default parameters, the profile tool reports the number of sizes found other than the image's own that are not known, and of those known that are not found, widths and heights together, in whatever order either are; the totals are the sums of the counts and times reported for all the images. Images that cannot be read are skipped, with a message; it stops and exits with 1 when detection fails in an image or the dictionary is not readable, ends early or has no sizes where they belong, and with 0 otherwise.",
 ["inputs"],"every dictionary, set of readable and unreadable images and known sizes",
 "no test runs the tool",
 ["src/profile.c"],[("diffres","src/profile.c"),("readres","src/profile.c"),("main","src/profile.c")],[],["profile command line"])

p("V01","The visualize script draws the detected size over the spectrogram",
 "Given an image and an output, visualize.sh writes to the output the picture the spec tool makes of the image with the options of -s, with two lines drawn over it in the color (green by default) and thickness (1) given: one at the height resdet detects, over the last line_length (50) columns of the image's full width, and one at the detected width, over the last line_length rows of its full height, where -r holds options for resdet. A missing operand or an invalid option is answered with the usage and a status of 2, and help with a status of 0; if a tool is missing or fails the status is not 0 and nothing is drawn.",
 ["inputs"],"every image, detected size, set of options and names, and failure of a tool",
 "no test runs the script",
 ["src/visualize.sh"],[("visualize.sh","src/visualize.sh")],[],["visualize.sh command line"])

p("P01","The Python bindings detect exactly what the library does",
 "Detection and sequential analysis through the Python bindings return the library's result lists as widths and heights, for image data given as a list, float array, image buffer, two-dimensional NumPy array (indexed row then column, of any numeric type and memory layout) or Pillow image (its frames from the current one on, without moving from it; frames that differ in size are an invalid image), for files, and for any method and parameters. Library errors, including invalid parameter values, raise the exception for that error.",
 ["inputs","histories"],"every image, sequence, argument type, method and parameter set",
 "tests use a 2x2 image, for which width and height cannot be told apart and no result is possible",
 ["bindings/python/resdet.py","bindings/python/resdet_numpy.py","bindings/python/resdet_PIL.py","bindings/python/libresdet_api.py"],[("Analysis","bindings/python/resdet.py"),("resdetect","bindings/python/resdet.py")],[],["Python modules resdet, resdet_numpy, resdet_PIL"])

p("P02","The Python bindings read images exactly as the library does",
 "Opening, reading, seeking and bulk reading through the Python bindings give the same sizes, frames in the same order, end of file and progress calls as the library, with pixel (y, x) of frame n at index [n, y, x] of an image buffer and at [y][x] of a NumPy array or Pillow image. Out-of-range indexes raise an index error and read errors the exception for that error; an image buffer that was closed, or is used again for another image, holds or receives nothing of the former; an image that was closed, or whose with statement ended, no longer has its file open.",
 ["inputs","histories"],"every file, every mix of reads and seeks, square and non-square images",
 "tests use a 2x2 checkerboard",
 ["bindings/python/resdet.py","bindings/python/resdet_numpy.py","bindings/python/resdet_PIL.py"],[("Image","bindings/python/resdet.py"),("ImageBuffer","bindings/python/resdet.py")],[],["Python modules resdet, resdet_numpy, resdet_PIL"])

p("J01","The JavaScript bindings detect exactly what the library does",
 "Detection and sequential analysis through the JavaScript bindings return the library's result lists as widths and heights for any image sequence, method and parameters, and report library errors, including invalid parameter values, as exceptions carrying the error code.",
 ["inputs","histories"],"every image, sequence, method and parameter set",
 "the tests of these bindings are not part of the suite that runs",
 ["bindings/emscripten/resdet.mts"],[("resDetect","bindings/emscripten/resdet.mts"),("Analysis","bindings/emscripten/resdet.mts")],[],["JavaScript module resdet"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))

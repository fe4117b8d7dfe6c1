"""Writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, M, U, D, C = ("micropolarray/image.py", "micropolarray/micropol_image.py", "micropolarray/utils.py",
                 "micropolarray/processing/demodulation.py", "micropolarray/processing/convert.py")
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level_note="", technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe,
                  level_note=level_note, technique=technique))


prop("C01", "A save that returns has written exactly what the image holds",
     "When any of the save operations (image, single polarizations, one or all polarization parameters, demosaiced images, raw) returns normally, every file it is documented to write exists under the documented name, "
     "is complete, and holds bit for bit the pixel values and the header entries of the image as it was, limited to the requested range if one was given. "
     "This holds whatever was at that path before, however the operating system splits or interrupts the transfers, and whatever other savers write to other files at the same time; nothing else in the file system changes.",
     ["inputs", "schedules", "fault_sequences", "configurations"], "every image, save operation, path, previous file, short or interrupted transfer and interleaving with savers of other files",
     "The tests save one or two images to fresh paths in a directory nobody else uses and mostly check that a file can be opened; they never meet a short or interrupted write, an overwritten longer file or a second saver.",
     [I, M, U], [("FITS and raw savers", I + " save_as_fits, save_as_raw"), ("polarization savers", M + " save_*"), ("path and range helpers", U)],
     observe=["files below the target directory, read with an independent FITS decoder", "state of the image"],
     level_note="seeded exploration of images, operations, schedules and benign I/O; every written file is decoded by an independent reader and compared bitwise. Trusts: kernel tmpfs, the simulator's libc interposition.")
prop("C02", "A failed or killed save never passes for good data",
     "When a save fails (disk error, full disk, permission, lost memory, interruption) it raises, and when the process is killed inside it, every target file afterwards either is absent, or holds its complete old or complete new content, or is refused when loaded; "
     "no other file changes. A concurrent reader of the target sees old or new content or an error, never a mixture, and the same save succeeds once the fault is gone.",
     ["crash_points", "fault_sequences", "inputs", "schedules"], "every save operation, every position of one or two injected errors, every kill point between and inside file operations, every interleaving of one reader",
     "No test injects a failing write, a full disk or a kill, so the tests cannot see an error that is swallowed or a torn file that loads.",
     [I, M, U], [("write of a whole file", U + " _write_fits"), ("savers", I + ", " + M)], observe=["exceptions of the save", "files after the failure", "loads of the target"],
     level_note="seeded exploration of fault placements found by a dry run; crash = process kill (completed file operations survive); disk contents judged by loading through the package and an independent decoder.")
prop("C03", "Converting a raw file never loses the only copy of an image",
     "Converting a raw image writes a FITS file of the same base name with exactly the pixel values of the raw file, and the raw file is removed only if that was requested and the complete FITS file is in place. "
     "Whatever error, kill or concurrent conversion happens, at least one complete copy of every image can be read afterwards and no other file is touched; files of another type or too short are refused without changes, "
     "and repeating the conversion after any number of faults ends with every image converted.",
     ["crash_points", "fault_sequences", "inputs", "schedules"], "every raw image, file name, earlier conversion, position of errors and kills, several converters, and any number of recoveries",
     "The tests have no conversion with removal under a fault and no names with more than one dot; a loss needs a failure between two file operations.",
     [C, U], [("conversion", C + " convert_rawfile_to_fits"), ("write of a whole file", U + " _write_fits")], observe=["raw and FITS files of every image"],
     level_note="seeded exploration; after every conversion, fault, kill and recovery both copies of every image are judged.")
prop("C04", "Averaging and summing lists of files is all-or-nothing and exact",
     "Combining a list of files (images, polarization images, raw files) gives the sum or mean of every listed file, each exactly once per mention, independent of their order, with the header of the first file and in it the number of files and the first and last observation time. "
     "If one of them is missing, truncated, of another size or fails to be read, the operation raises and an existing output file keeps its content.",
     ["inputs", "histories", "fault_sequences", "crash_points"], "every list of 1 to 8 files of every type, with repetitions, in two orders, with a fault or an invalid file at any position",
     "The tests average a few copies of one image; they cannot see a file that is skipped, a truncated input that counts as zero or an output that is replaced although an input failed.",
     [I, C], [("list of files", I + " _init_image_from_file"), ("raw lists", C + " merge_rawfiles_to_fits, average_rawfiles_to_fits, convert_set")], observe=["result image or output file", "header cards"],
     level_note="seeded exploration against exact sums computed independently; rounding tolerance of the input precision.")
prop("C05", "Decoding packed raw files is exact under any worker schedule",
     "Decoding a packed raw file gives exactly the pixel values that were packed, row by row, regardless of which worker processes which part of the file and in which order the parts finish. "
     "A file of the wrong length or a worker that fails makes the decoding raise; it never returns an image with parts missing or exchanged.",
     ["schedules", "inputs", "fault_sequences"], "every content of a full-size packed file, every assignment and completion order of worker tasks, every failing worker, every wrong length",
     "No test decodes a packed file; the order of worker completion is outside a test's control.",
     [C], [("packed decoder", C + " three_bytes_to_two_ints, nparr_from_binary"), ("lists of packed files", C + " convert_set")], observe=["decoded array", "exceptions"],
     level_note="the worker pool is simulated (real worker code and pickling in forked workers; assignment and order drawn from the seed). Few runs per minute: one decode costs seconds.")
prop("C06", "A calibration is independent of its division of work and matches the instrument",
     "The published demodulation matrices, parameters, covariances and flags are the same for every process grid, worker order and order of the input files, and for noise-free signals of a known instrument, with dark, flat, occulter and binning, with a signal normalization that is given as a number, an image or one of either per file, or is estimated from the images, they are that instrument's; the covariances and the reduced chi square are those of the least-squares fit with the uncertainties that the given gain implies. "
     "A failing worker, missing worker processes, an unreadable or unfit input or a request that cannot be divided makes the calibration raise and changes nothing on disk; the lists and arrays of the request are left as they were.",
     ["schedules", "inputs", "configurations", "fault_sequences"], "every instrument, correction, binning, process grid, worker assignment and completion order, input order, and every single worker or input failure",
     "The one calibration test runs one fixed grid on one input set; chunk exchange, order effects or swallowed worker errors need other grids, schedules and failures.",
     [D], [("division and merge", D + " calculate_demodulation_tensor"), ("fit of one part", D + " compute_demodulation_by_chunk"), ("loading", D + " Demodulator")],
     observe=["calibration folder read back through the package", "demodulated synthetic observation"],
     level_note="simulated pool; synthetic instruments on 2 to 16 superpixel images; compared with ground truth to 2e-3 and between grids to 1e-7.")
prop("C07", "A calibration folder is old, complete, or refused",
     "Whatever error or kill interrupts a calibration that replaces an existing one, the folder afterwards loads as the complete old calibration, as the complete new one, or is refused; a mixture never loads, and repeating the calibration repairs it. "
     "A folder with a missing, truncated or duplicated matrix is refused, and what loads does not depend on the order in which the directory lists its files.",
     ["crash_points", "fault_sequences", "configurations", "histories"], "every kill point and error position in the publication, every directory order, every incomplete or duplicated set of matrices",
     "No test kills a calibration, reorders a directory listing or removes single matrices.",
     [D, U], [("publication order", D + " calculate_demodulation_tensor"), ("loading", D + " Demodulator"), ("write of a whole file", U + " _write_fits")], observe=["calibration folder read back through the package after every fault"],
     level_note="seeded exploration of kill points and errors over all file operations of the publication; crash = process kill.")
prop("C08", "Loaded images and demodulators are snapshots; new loads see current content",
     "An image or demodulator made from files, from arrays or from another image keeps the values it was made with, whatever later happens to its sources: overwriting, rewriting in place, truncating, deleting, replacing, or changing the array or dictionary it was made from. "
     "Every new load returns the content the files have at that time or is refused if they are incomplete.",
     ["histories", "inputs", "configurations"], "every history of loads and source changes over several files, a matrix folder and arrays, with memory mapping on and off",
     "The tests load each file once and never change it afterwards, so a lazily mapped file or a stale cache is invisible to them.",
     [I, M, D], [("loading", I + " _init_image_from_file"), ("copying", M + " _import_image_parameters"), ("matrix loading", D + " _get_demodulation_tensor")], observe=["public attributes of all live objects after every step"],
     level_note="seeded histories; every live object is compared bitwise after every step.")
prop("C09", "Images do not share state; an operation changes only the image it is called on",
     "Copies, corrected, resampled, combined and demodulated images, plain images, arrays given by the caller, demodulators and the default orientations are independent: changing one, in any way, changes no other. "
     "Operations that return a new image, queries, saves and plots leave all their operands as they were, including when they fail or are interrupted.",
     ["histories", "programs", "fault_sequences"], "every history of operations, changes, failures and interruptions over a pool of objects",
     "The tests check the result of single operations and almost never look at the operands or at other images afterwards.",
     [M, I, D], [("copying", M + " _import_image_parameters"), ("arithmetic and resampling", M), ("constructors", I + " " + M)], observe=["public attributes of every object after every step"],
     level_note="seeded histories; every object that is not the target is compared bitwise after every step.")
prop("C10", "An operation that fails leaves every image unchanged and can be repeated",
     "When an operation on an image raises, because memory runs out at any point or because an operand does not fit, every image, array and demodulator is bitwise what it was before and no file has changed. "
     "Repeating the operation then gives exactly what it gives without the failure, and an operation that reports success although an allocation failed has given exactly that result.",
     ["fault_sequences", "inputs", "histories"], "every operation on every reachable state with an allocation failing at every position, or with any unfit operand",
     "Tests cannot make an allocation fail inside an operation and do not look at the image after an expected exception.",
     [M, I], [("in-place corrections", M + " subtract_dark, correct_flat, correct_ifov, mask_occulter, demosaic"), ("constructors", M)], observe=["public attributes before and after", "result of the repetition"],
     level_note="numpy's data allocator is replaced through its own API and fails at drawn allocations; asynchronous interrupts of in-place operations are not judged.")
prop("C11", "Polarization parameters always belong to the current pixels",
     "After any sequence of constructions, corrections, demosaicing, masking, resampling, arithmetic, demodulation (with a demodulator turned or flipped any number of times) and copying, intensity, Stokes parameters, polarized brightness, angle and degree of polarization, the single polarization images and the demosaiced images "
     "are those of the current pixel values under the image's orientations, as a straightforward reference model computes them; demodulated images carry the parameters of their demodulation.",
     ["histories", "inputs", "programs"], "every sequence of operations on images of every size, type and orientation",
     "The tests check parameters after one operation at a time; stale or doubly applied parameters need a sequence of two or more.",
     [M, "micropolarray/polarization_functions.py", "micropolarray/processing/demosaic.py", "micropolarray/processing/rebin.py"],
     [("refresh of parameters", M + " _update_data_and_Stokes"), ("derived parameters", "micropolarray/polarization_functions.py"), ("demosaicing", "micropolarray/processing/demosaic.py")],
     observe=["public attributes of every image after every step"], level_note="an independent executable model follows every history; values compared with a rounding tolerance.")
prop("C12", "The same program gives the same results",
     "A program over the library (operations, saves, file lists, matrix folders, calibrations, conversions, image functions) gives bitwise the same results, files and errors whatever newly allocated memory contained, whatever was computed or failed before in the same process, "
     "and whatever the clock, the directory order, the worker schedule, memory mapping and string hashing are; only recorded times of writing differ.",
     ["programs", "histories", "configurations", "schedules"], "every program of 1 to 3 parts, every earlier program in the process, memory content, clock, directory and worker order, hash seed",
     "Tests run in one fixed order in one environment, where uninitialised memory is usually zero and caches are usually cold.",
     [M, I, D, C, "micropolarray/processing"], [("cached coordinates", "micropolarray/processing/nrgf.py map_polar_coordinates"), ("buffers", "micropolarray/processing"), ("results of workers", D)],
     observe=["results and files of complete programs"], level_note="the same program is executed up to five times under different simulated environments and compared bitwise.")
prop("C13", "Concurrent callers get what they would get one after another",
     "Threads that work on their own images and files, or compute from the same images, demodulators and files without changing them, or save into the same new folder, get bitwise the results and files they would get one after another, also when one of them fails or is interrupted. "
     "The default orientations behave as one atomic setting: every image made without explicit orientations has entirely one of the settings that were current while it was made.",
     ["schedules", "programs", "fault_sequences"], "every interleaving of 2 to 4 threads at source lines and file operations, every program they run, an interruption of one of them at any line",
     "No test starts a thread, and a test could not choose the interleaving.",
     [M, I, U, D], [("default orientations", M + " set_default_angles and constructor"), ("creation of folders", U + " _make_abs_and_create_dir"), ("queries", M)],
     observe=["results of every thread", "written files", "history of default settings"],
     level_note="real threads under a seeded scheduler, switching at every source line of the package, in part of the runs after every call of a compiled function, and every file operation; atomic-register linearizability for the default orientations.")
prop("C14", "Failed fits are contained, flagged and replaced by theory",
     "A superpixel that cannot be fitted (a pixel without signal, with an invalid value, without usable sensitivity to polarization, or for which the solver fails) is flagged, gets the theoretical matrix and finite parameters, and changes nothing for any other superpixel; demodulating an image uses the theoretical Stokes parameters exactly at the flagged superpixels and the fitted matrices elsewhere, also after the demodulator has been turned or flipped. "
     "A failure that is not a failure of the fit (no memory, interruption) ends the calibration with an error and nothing is published.",
     ["fault_sequences", "inputs", "configurations", "schedules"], "every set of faulty superpixels and pixels, every kind of failure, with dark, flat, occulter, binning and every process grid",
     "The tests contain no dead or invalid pixel and no failing solver.",
     [D, M], [("fit of one part", D + " compute_demodulation_by_chunk"), ("use of flags", M + " _get_Stokes_from_demodulator")], observe=["calibration folder read back through the package", "demodulated images"],
     level_note="solver faults are selected by the signal being fitted, so they do not depend on the schedule; everything else is real code.")
prop("C19", "A Chen-Wan-Liang calibration is right, published whole, and applied right",
     "The matrices and offsets that a Chen-Wan-Liang calibration publishes are the mean over its images of the minimum-norm solution for each superpixel, for images, dark and flat of any numeric type, with or without dark, flat and occulter, and in any order of the files; "
     "correcting an image of any numeric type multiplies it by them and averages neighbouring superpixels, without changing the image. "
     "An error or kill at any point of a calibration leaves a folder that corrects as the complete old or the complete new calibration, or is refused; unfit inputs, missing or torn matrices are refused and change nothing.",
     ["inputs", "configurations", "crash_points", "fault_sequences"], "every image type, correction, file order, every kill point and error position in the publication, every incomplete folder",
     "There is no test of this calibration.",
     ["micropolarray/processing/chen_wan_liang_calibration.py", U], [("calibration and publication", "micropolarray/processing/chen_wan_liang_calibration.py calculate_chen_wan_lian_calibration"), ("use", "micropolarray/processing/chen_wan_liang_calibration.py chen_wan_liang_calibration")],
     observe=["published files", "corrected images after every fault"], level_note="compared with an independent reference model; the superpixels at the edge of the occulter are not judged; crash = process kill.")
prop("C20", "A session leaves nothing behind",
     "Whatever operations a program executes, whether they succeed, are refused or fail at any point (file errors, full disk, no memory, failing workers, interruption), no file the library opened is still open or mapped when they have returned or raised, "
     "no temporary file, process pool, process or thread is left, and process-wide settings (working directory, numeric error handling, warning filters, random state, signal handlers, FITS and plot configuration, environment, default orientations) are what they were. "
     "A session can be repeated any number of times: an identical repetition gives identical results and keeps no more arrays or images alive than the one before.",
     ["histories", "programs", "fault_sequences"], "every session of operations, every fault in them, and any number of repetitions",
     "Each test is one short operation in a fresh state; a descriptor, setting or image that is left behind shows only after failures or in long sessions.",
     [I, M, U, D, C], [("loading", I + " _init_image_from_file"), ("pools", D + " calculate_demodulation_tensor, " + C + " nparr_from_binary"), ("writes", U + " _write_fits"), ("numeric code", "micropolarray/polarization_functions.py")],
     observe=["/proc/self/fd, /proc/self/maps, process-wide settings", "live numpy blocks and image objects after every repetition"],
     level_note="the session is executed several times in one process; descriptors and settings are compared after every part, live arrays (counted by the simulated allocator) after every repetition.")

SESSION = "in any session: whatever was computed before, failed for lack of memory or was interrupted, whatever newly allocated memory contained, also when its earlier results or inputs were overwritten by the caller, and when several threads compute at once. Arguments are never changed. "
OVER = ["histories", "inputs", "fault_sequences", "schedules"]
NOTE = "seeded sessions of calls with allocation failures, interruptions, memory contents, aliasing by the caller and threads; every result is compared with an independent reference."
prop("C15", "The errors reported for an image follow linear propagation, in any session",
     "The errors reported for the Stokes parameters, the polarized brightness, the degree and the angle of linear polarization are those of linear propagation of the given pixel errors through the demodulation matrix of the demodulator as it is (turned, flipped), for the image's current Stokes parameters, " + SESSION
     + "They are finite wherever intensity and polarized brightness are not zero.",
     OVER, "every image with any operations behind it, every demodulator, every pixel error, every session",
     "The tests do not compute errors.", ["micropolarray/processing/demodulation_errors.py"], [("propagation", "micropolarray/processing/demodulation_errors.py MicropolImageError")],
     observe=["the four errors", "arguments after every call"], level_note=NOTE)
prop("C16", "Regions, occulter masks and the radial filter select the documented pixels, in any session",
     "A polar region keeps exactly the pixels within its limits of radius and angle around its centre (whole superpixels or single pixels) and fills or marks the others; the occulter region and mask of a camera exclude exactly the enlarged occulter; a linear region is the connected line from its start to its end, or in the given direction between the given radii; "
     "the radial filter gives every ring zero mean and unit deviation over the chosen sector and is zero outside its limits; searches find the occulter of an image. All this holds " + SESSION.strip(),
     OVER, "every image, centre, radius, angle and fill value, every session", "The tests sample a few geometries, always in a fresh process with nothing cached.",
     ["micropolarray/processing/nrgf.py", "micropolarray/processing/linear_roi.py", "micropolarray/cameras.py"],
     [("regions and filter", "micropolarray/processing/nrgf.py roi_from_polar, nrgf, map_polar_coordinates"), ("lines", "micropolarray/processing/linear_roi.py"), ("cameras", "micropolarray/cameras.py")],
     observe=["returned arrays", "arguments after every call"], level_note=NOTE)
prop("C17", "Resampling, rotation, shifting and demosaicing are right, in any session",
     "Congridding an array or an image interpolates linearly with the end points kept (images: each orientation and each Stokes parameter on its own); rotating an image turns each orientation and Stokes parameter counter-clockwise about its centre with the nearest pixel and zero from outside; binning adds pixels of the same orientation, shifting moves whole superpixels, "
     "demosaicing interpolates each orientation with the documented method, and splitting and merging orientations are inverse. All this holds " + SESSION.strip(),
     OVER, "every array, image with any operations behind it, size, angle and mode, every session", "The tests sample few sizes and angles in a fresh process.",
     ["micropolarray/processing/congrid.py", "micropolarray/processing/demosaic.py", "micropolarray/processing/shift.py", M],
     [("interpolation", "micropolarray/processing/congrid.py congrid"), ("resampling", M + " congrid, rotate, rebin, shift"), ("demosaicing", "micropolarray/processing/demosaic.py")],
     observe=["returned arrays and images", "arguments after every call"], level_note=NOTE + " Rotation is not judged within 1e-3 pixels of the border between two source pixels.")
prop("C18", "Helpers give the documented values, in any session",
     "Conversion to solar brightness, normalisation of angles to (-90, 90] degrees or radians, alignment of keywords and turned data, Malus normalisation, mean and median plus or minus deviations, photon noise, Otsu's threshold, rejection of outliers, the map of hot pixels, trimming to a binning, and angle, degree and brightness of polarization give the documented values, " + SESSION.strip(),
     OVER, "every argument, every session", "The tests sample a few values, each in a fresh process.",
     [U, "micropolarray/polarization_functions.py", "micropolarray/processing/image_cleaning.py", "micropolarray/processing/rebin.py"],
     [("helpers", U), ("polarization", "micropolarray/polarization_functions.py"), ("thresholds", "micropolarray/processing/image_cleaning.py")],
     observe=["returned values", "arguments after every call"], level_note=NOTE)
P.sort(key=lambda p: p["id"])

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                a["observe_at"] = list(p["observe"])
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
        for id, title, st, over, text, why, files, mech, _ in NA:
            f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": [over], "text": text}, "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "./build.sh",
           "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
                       "technique": "deterministic simulation with fault injection, seeded search", "level": "exploration", "level_note": p["level_note"]} for p in P],
           "not_applicable": [{"property": n[0], "reason": n[8]} for n in NA],
           "notes": "No hooks in /repo: the seams are libc file calls (LD_PRELOAD), numpy's allocator API, multiprocessing.Pool, threading, scipy's curve_fit and the clock, all replaced from outside. Replay: ./check <id> --replay <file>."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()

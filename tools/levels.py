"""Technique and assurance of each check, for MANIFEST.json."""
T = "TLA+/TLC: "
LEVELS = {
"C01": (T + "format machine, model-generated cases, trace validation",
        "TLC explores the encoder/decoder machine for all models of small grids, all run splits and all single faults; the real writer and reader are run on every model of the small grids and on random models with runs around 255, and TLC judges every result, including the bytes written. Beyond the small grids: sampled."),
"C02": (T + "trace validation against the box selection of the specification",
        "Random models and boxes on all axes, both formats, both directions, including boxes that touch or exceed the grid; TLC judges voxels, size, world place and pitch of each result. Sampled, not exhaustive."),
"C03": (T + "format machine, model-generated files, trace validation",
        "The files that the specification's encoder and faults produce (all run splits, every cut, every byte damaged) are read by the real readers, plus header defects and random larger files; TLC compares with the reference decoder, which TLC also shows equal to the stepwise decoder. Files that hold fewer voxels than the grid are accepted, as the tests of the repository demand."),
"C04": (T + "fault enumeration judged by the specification of a write",
        "Storing fails at every byte of small files, and at the buffer boundaries and random bytes of larger ones (limit on the file size), on a full device and at impossible paths. Failures that only fsync would report are out of scope."),
"C07": (T + "format machine, model-generated cases, trace validation",
        "As C01, for shells: all shells of small grids and random ones with runs around 255 and 65535 and voxels without neighbors."),
"C05": (T + "merge algorithm model-checked, its behaviours replayed and random ones validated",
        "TLC checks the incremental merge for all distributions of the columns of a 3x3x3 world over models and all orders; these behaviours and random ones (up to 5 models, 6x6x6, negative offsets, color voxels, files) are run on the real code and every step is judged. Models are disjoint or overlap in voxels that the shell lists: voxels enclosed earlier are forgotten by design."),
"C06": (T + "merge algorithm model-checked, its behaviours replayed and random ones validated",
        "As C05, with positions off the lattice by up to 0.2 voxels, six voxel sizes, models of other voxel sizes (relative difference 0.1% and more) and missing models; places, grid, voxel size and unchangedness are judged at every step."),
"C08": (T + "cut algebra model-checked, its cases replayed and random ones validated",
        "TLC checks the keep/remove/regrid steps of voxcut on all small models and cut lists; these cases and random ones (several cut files, offsets on and off the lattice, all flags) are run with the real voxcut and TLC judges exit status, voxels, grid and place of the result. Sampled beyond the small models."),
"C09": (T + "trace validation of the section plans of voxcut-dice",
        "Random models, section sizes (also larger than the model, zero and not dividing it) in both modes; TLC judges that the printed or executed sections cover every voxel exactly once and lie inside their boxes."),
"C26": (T + "trace validation of .vox files against the specification of the chunk format",
        "Random models on all axes up to the limit of 256 written by the real voxcut; an independent parser reads the chunks and TLC judges sizes, counts, coordinates and placement."),
"C10": (T + "layer algorithm model-checked, solids from the specification and random ones voxelized and judged",
        "TLC checks the row scan of the specification against the solid on all small sections and emits lattice solids; these and random closed meshes (hulls, prisms, rectilinear solids, several overlapping bodies, any place, pitch and region) are voxelized by the real code, and TLC judges every voxel against the exact must/may sets of the solid. Sampled beyond the small solids."),
"C11": (T + "interleavings of the layers model-checked, traces of subdivided and repeated runs validated, race detector",
        "TLC explores all interleavings of layer workers on the shared set; the real Voxelize/VoxelizeZ run as a whole, by layer and by region, repeatedly and for several models at once under the race detector, and TLC judges that the parts are exactly the whole and the mesh is unchanged. Schedules of the real code are sampled."),
"C14": (T + "cell table of the real code checked for all configurations and faces, growing models model-checked over it, random models validated",
        "The surface of each of the 256 configurations of a cell is recorded from the real code; TLC decides for all of them that nothing is open inside, that the boundary on every face depends on the corners of that face only (so that all neighbors fit), and that filled and empty corners are separated. That the mesh is made of these cells is checked on random models (also through the tools), as are position and scale. The 96 defects of the table are listed one by one as known findings."),
"C15": (T + "cell table of the real code checked for all configurations and faces, growing models model-checked over it, random models validated",
        "As C14, for marching cubes; no known findings."),
"C16": (T + "greedy cover model-checked, all small models and random ones meshed and judged",
        "TLC checks that any way of taking out rectangles covers the boundary exactly, on all subsets of small boxes; the real code meshes all 256 subsets of 2x2x2, all 512 of 3x3x1 and random models (also negative and far coordinates, color voxels, sections and cuts through voxcut -ostl), and TLC decides for each that every unit face is covered exactly once with the right side."),
"C12": (T + "division and script model-checked, files and scripts of the real stldice validated",
        "TLC checks that the divided intervals tile every axis and, in a model of the runs, which regions are written and named; the real stldice is run on random rectilinear solids (1-3 models, explicit and automatic bounding boxes, even and uneven divisions, impossible ones, binary and ASCII meshes) and TLC judges every region file (voxels, place, resolution, disjointness) and the commands printed. Sampled."),
"C13": (T + "runs with crashes model-checked, real runs killed and failed at system calls validated",
        "TLC explores all histories of interrupted runs (up to two crashes at any step) for all small solids, and shows that writing in place would violate the property; the real stldice is killed, or its calls fail, at chosen system calls (strace), at file sizes and at random times, up to three times in a row, and TLC judges what every interruption leaves and what the next run makes of it. Power failures (loss of the page cache) are out of scope."),
"C24": (T + "runs of the whole chain judged against the specification of the result",
        "The script printed by the real stldice is executed with the real voxcut and merge-stl on random solids and divisions, and TLC decides that the resulting mesh covers exactly the unit faces that bound base minus cuts region by region. Sampled; models whose faces avoid the lattice, file names without characters that are special to the shell."),
"C17": (T + "worker pool model-checked, schedules from TLC forced on the real code, race detector, outcomes judged",
        "TLC explores all interleavings of the pool for up to 5 files, all sets of unreadable files and numbers of workers, and shows that a pool without its mutex or with early slots would violate the property; TLC generates orders of completion that the driver forces on the real stl.Merge (built with the race detector) by holding every file with a lease until it is its turn, and TLC judges how many files are read at each moment and the result. Damaged and cut-off files of both formats are among the inputs."),
"C25": (T + "directories with outputs, flags and damage generated, the real tools run, outcomes judged",
        "The real merge-stl and merge-binvox run in random directories (names, prefixes with paths, earlier outputs of all kinds, missing, damaged and unreadable inputs, a full disk), and TLC decides from the directory before and after, and the exit status, whether the tool did what the specification allows. Sampled; prefixes without glob characters."),
"C18": (T + "service model-checked, scripts from the specification run on the real master, logs validated as behaviours",
        "TLC explores all interleavings of the service (2 jobs, 2-3 agents, 2 layers, losses, errors, cancellations) and shows that wrong designs violate the property. Scripts of the environment generated by TLC, and random ones, are run on the real master with fake agents over gRPC; TLC judges every archive and error and decides whether the log is a behaviour of the specification with its hidden steps added. Schedules inside of the master are sampled."),
"C19": (T + "service model-checked, scripts from the specification run on the real master, logs validated as behaviours, race detector",
        "As C18, with jobs that look alike at the same time, under the race detector; TLC judges that every archive has the images, names and manifest of its own job, also after later jobs."),
"C20": (T + "service model-checked including liveness, scripts from the specification run on the real master, logs validated as behaviours",
        "As C18; TLC also checks under fairness that every job ends. In the runs of the real master TLC judges that no agent gets a layer while it works on another, that layers do not wait while an agent is idle (for 10 s), and that jobs that are cancelled or have failed end. Agents that freeze, register twice, or come back at the same address while a call to them is on its way are excluded."),
"C21": (T + "combination of voxels into an image model-checked, images of the real agent judged for several divisions",
        "TLC explores all orders in which the voxels of base and cuts can arrive, for all small layers and divisions; the real agent makes images of random models (boxes, convex bodies, arbitrary meshes; any place, pitch, resolution up to 12) for four divisions each, and TLC judges every pixel. Pixels of voxels that a model only touches are up to the rounding."),
"C22": (T + "fates of requests specified, requests with up to two unsound parts enumerated by TLC and sent to the real service, race detector",
        "TLC enumerates all requests with at most two (thorough: three) unusual parts; they are sent to a real master and real agents over the network, alone or at once, while sound jobs run; TLC judges every answer, and the images of all sound requests, meanwhile and afterwards. Positions of the faults in a model are sampled."),
"C23": (T + "names and manifests model-checked, archives of the real master and conversions by the real svx2stl judged",
        "TLC checks for all short prefixes over the critical characters that the manifest names the images and that readers find them; archives of the real master (odd prefixes, random models) are judged by an explicit printf, and archives made by hand (patterns, orders, gray levels at the threshold, kinds of PNG, faults) are converted by the real svx2stl, whose surface TLC judges by the cell table of C15. Sampled."),
"C27": (T + "script for all boxes and models model-checked, scripts of the real binvox-dice executed and judged",
        "TLC runs the script of the specification for all small divisions and numbers of models with a model of the names that binvox gives to its outputs, and shows that other orders, or a directory with earlier outputs, would violate the property; scripts of the real binvox-dice are executed by bash with a stand-in for binvox and the real voxcut, and TLC judges every command and the mesh of every piece. Sampled. Excluded: a model given twice, models whose outputs have the same name (a.stl, a_1.stl), names that do not end in .stl or have characters that are special to the shell, directories with earlier outputs of binvox."),
"C28": (T + "processes and crashes model-checked including liveness, scripts from the specification run with real processes",
        "TLC explores all interleavings of a client, a master that is started again, and agents that are killed, and shows that wrong designs (errors taken for archives, addresses that cannot be reached, early files, a full disk not noticed) violate the property. Scripts generated by TLC are run with the real stl2svx-server and stl2svx-client as processes on the loopback network (killed, frozen, started again; odd addresses, requests and files), and TLC judges exit status and archive of every client. Times of the kills are sampled. Agents do not register again with a master that was started again."),
"C29": (T + "buffered reading and writing with a failing call model-checked, system calls of the real code made to fail and judged",
        "TLC explores buffered readers and writers with a failure of any call, and shows that wrong designs (a read error taken for the end of the file, unchecked writes, unchecked close, an error noticed too late) violate the property; single system calls about one file of the real readers, writers and tools are made to fail (strace), and TLC decides from the sequence of calls and their results whether the operation may report success. Calls, files and errors are sampled; failures that only fsync would report, and several failures at once, are not tried."),
"C30": (T + "histories of additions model-checked and replayed into the real code, whose answers TLC judges",
        "TLC checks for all histories of three (thorough: five) additions to two models that looking into the maps gives what the history says, and shows that wrong designs (shared maps, recoloring, the first color) do not; histories of four additions (thorough: all of them) and random longer ones are replayed on real models at places that have much in common (limits of 8, 10, 16, 21 and 30 bits), made anew or read from files, and every voxel is looked up in every model after each step. Boxes, sizes and resolutions of random grids are judged in thousandths of a voxel."),
}
NOT_APPLICABLE = {}

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Writing and reading a binvox file loses nothing",
 "Writing a voxel model to a binvox file and reading that file back yields exactly the same filled voxels, grid size, position and scale. A model without filled voxels is written as an empty grid at the same position and scale. Writing the same model twice writes the same bytes.",
 ["inputs"], "All grid sizes, positions, scales and sets of filled voxels; all lengths and positions of the runs in the file.",
 "TestRead reads three fixed streams and nothing writes a file and reads it back, so run lengths around the 255 limit, runs that wrap between columns, sparse sets and odd scales are never met.",
 ["binvox/write.go", "binvox/read.go", "binvox/binvox.go"],
 [("run-length encoder", "binvox/write.go encode, write"), ("decoder", "binvox/read.go read")],
 [("WhiteVoxels", "set of filled voxels", "binvox/binvox.go")], ["binvox.Write", "binvox.Read"])

prop("C02", "Sub-box reads and writes select the box and keep it in place",
 "Reading or writing a sub-box (start indices and counts, a count of 0 meaning the whole extent of the axis) of a binvox or shell file selects exactly the voxels inside the box. Reading keeps the grid and the indices of the whole file; a file written for a sub-box has the size of the box, and places every selected voxel at the same position in world space, with the same size, as in the whole model.",
 ["inputs"], "All models, start indices and counts, including boxes that touch or exceed the end of the grid, on each axis.",
 "One test reads one sub-box of one model; no test writes a sub-box, and world positions of written sub-boxes are never compared.",
 ["binvox/read.go", "binvox/write.go", "vshell/read.go", "vshell/write.go"],
 [("selection while decoding", "binvox/read.go read, vshell/read.go read"), ("translate/scale of the written header", "binvox/write.go write, vshell/write.go write")],
 observe=["Read and Write of both packages"])

prop("C03", "The file readers decode the format exactly and reject malformed files",
 "The readers of binvox and shell files return exactly the voxels, grid, position and scale that the file encodes (runs in order: y fastest, then z, then x), however the encoder split the runs. A file with a malformed header, an invalid value, a zero run length (binvox and voxel runs of shells), a cut-off run or data beyond the grid is refused with an error. No input makes a reader crash or hang.",
 ["inputs"], "All byte sequences; in particular every splitting of runs, every truncation point and every single-byte corruption.",
 "TestRead of both packages decodes a few well-formed streams; no malformed stream of the payload and no other splitting of runs is ever tried.",
 ["binvox/read.go", "vshell/read.go"],
 [("header checks", "read of both packages"), ("value, count and overrun checks", "read of both packages")],
 observe=["binvox.Read", "vshell.Read"])

prop("C04", "A write that cannot be completed is reported",
 "Writing a binvox or shell file reports success only when the complete file has been stored. When the file cannot be created, or storing any of its bytes fails, the write returns an error.",
 ["fault_sequences", "inputs"], "A failure to store at every byte of the file (limit on the size of the file, full device), and paths that cannot be created; models of all sizes, including empty ones.",
 "No test lets a write fail.",
 ["binvox/write.go", "vshell/write.go"],
 [("error propagation from every write and from close", "Write and write of both packages")],
 observe=["error result of Write", "bytes on disk"])

prop("C05", "Merging keeps exactly the outer shell with exact neighbors",
 "After merging any sequence of voxel models into a shell, where models may have voxels in common only with what the shell still lists (voxels enclosed earlier are forgotten), the shell lists exactly those voxels of the union that are not completely enclosed by 26 filled neighbors, each exactly once, with exactly the set of its filled neighbors. The result does not depend on the order in which the models are merged, nor on how the voxels are distributed over them.",
 ["histories", "inputs"], "All sequences of merges of models, disjoint or overlapping in voxels that the shell lists, at any relative position (negative, zero and positive offsets on each axis).",
 "TestAdd merges seven fixed pairs and only one of them updates old voxels; orders, splits and longer sequences are not tried.",
 ["vshell/merge.go", "vshell/vshell.go"],
 [("neighbor lookup", "vshell/merge.go findNeighbors"), ("update and removal of old shell voxels", "vshell/merge.go Add, diffKeys")],
 [("Voxels", "shell voxels with neighbor sets", "vshell/vshell.go")], ["VShell.Voxels after Add and Merge"])

prop("C06", "Merging places models by their world position and keeps the resolution",
 "Merging a model into a shell places each of its voxels at the model's position in world space (to the nearest voxel), and leaves the world positions of the voxels already in the shell as they were. The voxel size of the shell never changes, and its grid covers all of its voxels. A model with another voxel size, or a missing model, is refused with an error and leaves the shell unchanged.",
 ["histories", "inputs"], "All sequences of merges of models with any grid sizes, translations and scales, including empty shells and empty models.",
 "TestAdd uses translations 0 and 1 and one mismatching scale; negative and fractional offsets, growing grids and repeated merges are not tried.",
 ["vshell/merge.go"],
 [("offset calculation and re-basing", "vshell/merge.go update"), ("resolution check", "vshell/merge.go update"), ("scale adjustment", "vshell/merge.go Add, update")],
 [("TX,TY,TZ,NX,NY,NZ,Scale", "grid of the shell", "vshell/vshell.go")], ["VShell fields after Add"])

prop("C07", "Writing and reading a shell file loses nothing",
 "Writing a shell to a file and reading it back yields the same voxels with the same neighbor sets, grid size, position and scale, for shells with any runs of empty positions and any neighbor sets (including a voxel without neighbors).",
 ["inputs"], "All shells: every neighbor set of 26 bits, all run lengths of equal voxels and of empty positions (around 255 and 65535).",
 "TestRead of the package decodes one fixed stream and no test writes a shell file.",
 ["vshell/write.go", "vshell/read.go"],
 [("run-length encoder", "vshell/write.go encode, write"), ("decoder", "vshell/read.go read")],
 observe=["vshell.Write", "vshell.Read"])

prop("C08", "Cutting removes exactly the voxels that the cutting models fill",
 "The result of voxcut holds exactly those voxels of the processed section of the base whose place in world space is not filled in any cutting model, wherever the grids of the cutting models lie relative to the base. The order of the cutting models does not matter, and a cutting file that does not exist is passed over, without effect on the others. When no voxel is left after a cut, voxcut writes no output and exits with an error.",
 ["inputs"], "All bases and sequences of cutting models of the same resolution, with any translations and any section (start and count on each axis).",
 "TestVoxcut calls the cut on one small pair of in-memory models; sections, translations and several cuts are not tried.",
 ["cmd/voxcut/voxcut.go"],
 [("offset between the grids", "cmd/voxcut/voxcut.go offset, readCut"), ("difference", "cmd/voxcut/voxcut.go voxcut")],
 observe=["files written by voxcut"])

prop("C09", "Dicing a model for voxcut tiles it",
 "The sections that voxcut-dice processes (or prints with -n) together cover every voxel of the base model exactly once, and each section gets its own output files. Running it without -n executes exactly these commands, in order, and stops with an error at the first that fails.",
 ["inputs"], "All grid sizes and section sizes, dividing the grid evenly or not.",
 "There is no test of voxcut-dice.",
 ["cmd/voxcut-dice/voxcut-dice.go"],
 [("loop over sections", "cmd/voxcut-dice/voxcut-dice.go main")], observe=["commands printed and executed"])

prop("C10", "Voxelizing fills the solid and only the solid",
 "Voxelizing a closed mesh in a region fills exactly the voxels inside the region that lie inside the solid or that its surface crosses in the middle plane of their layer: no voxel outside of the region is ever filled, every voxel well inside the solid is, and no voxel more than one voxel away from the solid is. It holds wherever the region lies relative to the mesh.",
 ["inputs"], "All closed meshes (boxes, convex and non-convex, nested cavities), regions and resolutions, the mesh partly or wholly outside of the region.",
 "TestVoxelize voxelizes two meshes and checks the sizes of the grid and of the result only roughly.",
 ["binvox/voxelize.go"],
 [("slicing by planes", "binvox/voxelize.go intersectZPlane"), ("shell rasterization", "binvox/voxelize.go rasterizeShellPair"), ("flood fill", "binvox/voxelize.go floodFill")],
 observe=["BinVOX.WhiteVoxels after Voxelize"])

prop("C11", "Voxelization does not depend on subdivision or scheduling",
 "Voxelizing a mesh as a whole, layer by layer, or region by region gives the same voxels at the same places in world space. The result does not depend on the scheduling of the goroutines, runs without data races, also for several models at once, and leaves the mesh as it was.",
 ["schedules", "inputs"], "All interleavings of the goroutines of one or more voxelizations; all subdivisions of a grid into regions.",
 "The tests voxelize whole models once, without the race detector.",
 ["binvox/voxelize.go"],
 [("mutex around the voxel map", "binvox/voxelize.go setVoxelFunc"), ("per-layer and per-row goroutines", "binvox/voxelize.go Voxelize, floodFill")],
 observe=["WhiteVoxels after Voxelize and VoxelizeZ"])

prop("C12", "stldice covers the whole model and scripts every region",
 "The region files that stldice writes for a mesh together hold exactly the voxels of the mesh voxelized at the requested resolution over the whole bounding box, each voxel in exactly one file at its place in world space; a bounding box that fits exactly gets no further layer of voxels. The printed script cuts every region that has voxels of the base by the same region of every other model, names each region exactly once, and merges the results when there is more than one. A resolution or division that is not possible (not positive, not dividing the resolution, or leaving a region without a voxel) is refused with an error.",
 ["inputs", "configurations"], "All meshes, bounding boxes, resolutions and divisions, whether or not the voxels divide evenly.",
 "There is no test of stldice.",
 ["cmd/stldice/stldice.go"],
 [("region loop", "cmd/stldice/stldice.go diceMesh"), ("script output", "cmd/stldice/stldice.go main")],
 observe=["files and script of stldice"])

prop("C13", "An interrupted stldice run can be resumed",
 "After stldice was interrupted at any point (killed, or a failing write), running it again with the same arguments succeeds and leaves the same region files and prints the same script as a run without interruption. A region file with its final name is always complete.",
 ["crash_points", "fault_sequences"], "A kill or a write failure at every system call that changes files, and repeated interruptions.",
 "There is no test of stldice, and no test interrupts anything.",
 ["cmd/stldice/stldice.go", "binvox/write.go"],
 [("skip of existing files", "cmd/stldice/stldice.go diceMesh"), ("write to temporary file and rename", "cmd/stldice/stldice.go diceMesh")],
 observe=["directory contents and script after the second run"])

prop("C14", "The manifold mesh is a closed surface around the model",
 "The manifold mesh of a voxel model is closed: wherever two mesh cells meet, the edges of their surfaces cancel out, and no cell has an edge inside. It separates the filled voxels (white or color ones) from the empty ones and faces outwards, at the position and scale of the model. (Known holes are listed by cell configuration.)",
 ["inputs"], "All voxel models, that is all 256 configurations of the 8 voxels around a grid point and all pairs of configurations that can be neighbors.",
 "TestManifoldMesh compares hard-coded triangle lists of some small models; most configurations and almost all neighboring pairs are never checked for closedness.",
 ["binvox/manifold.go", "binvox/face-templates.go"],
 [("cell configurations", "binvox/manifold.go grid2tris"), ("templates", "binvox/face-templates.go"), ("rotations and mirrors", "binvox/manifold.go")],
 observe=["ManifoldMesh"])

prop("C15", "The marching-cubes mesh is a closed surface around the model",
 "The marching-cubes mesh of a voxel model is closed: every edge is cancelled by the opposite edge of another triangle. It separates the filled voxels (white or color ones) from the empty ones, faces outwards, and lies at the position and scale of the model.",
 ["inputs"], "All voxel models, that is all 256 cell configurations and all pairs of configurations that can be neighbors.",
 "There is no test of the marching cubes.",
 ["binvox/marching-cubes.go"],
 [("edge and triangle tables", "binvox/marching-cubes.go"), ("cell values", "binvox/marching-cubes.go cell, polygonize")],
 observe=["MarchingCubes"])

prop("C16", "The block mesh is exactly the boundary of the voxels",
 "The block mesh of a voxel model covers every unit face between a filled voxel (white or color) and an empty one exactly once, facing towards the empty side, and nothing else, at the position and scale of the model in world space.",
 ["inputs"], "All sets of voxels, translations and scales.",
 "There is no test of the block mesh.",
 ["binvox/mesh.go"],
 [("voxel mesh and transformation", "binvox/mesh.go ToMesh")], observe=["ToMesh", "STL files of voxcut"])

prop("C17", "Merging STL files yields all triangles or an error",
 "Merging STL files yields exactly the triangles of all the files together, however many files and workers there are and however the workers are scheduled. When any file cannot be read (missing, malformed, or cut off before its end, be it binary or ASCII), or there are no workers, the merge ends with an error; it never hangs, races or loses a failure. No more than the given number of files are read at the same time.",
 ["schedules", "inputs", "fault_sequences"], "All interleavings of the workers, all numbers of files and workers, unreadable files at any position.",
 "There is no test of the merge.",
 ["stl/stl.go", "cmd/merge-stl/merge-stl.go"],
 [("worker pool", "stl/stl.go Merge"), ("mutex around the mesh and the error", "stl/stl.go Merge")], observe=["stl.Merge", "merge-stl"])

prop("C18", "An SVX job returns every slice or an error",
 "When the master answers a job with an SVX file, the file holds, for every layer of the model, exactly the image that an agent produced for that layer of that job, exactly once, and the blank images below and above. When an agent reports an error for a layer, the job ends with an error; when an agent is lost, its layer is given to another agent.",
 ["schedules", "fault_sequences", "histories"], "All interleavings of registrations, assignments, replies, failures and losses of agents.",
 "There is no test of the master.",
 ["stl2svx/master/master.go"],
 [("assignment and retry", "stl2svx/master/master.go runAgent"), ("job loop and cancellation", "stl2svx/master/master.go NewJob")],
 observe=["NewJob replies and SliceJob requests"])

prop("C19", "Concurrent SVX jobs do not mix",
 "Jobs running at the same time on one master each get an archive with their own manifest, names and images only, as if they had run alone, under any interleaving and without data races. The failure or cancellation of one job does not affect the others.",
 ["schedules", "histories"], "All interleavings of two or more jobs sharing agents, with failures and cancellations of some.",
 "There is no test of the master.",
 ["stl2svx/master/master.go"],
 [("job-local archive and its mutex", "stl2svx/master/master.go svx, NewJob")], observe=["NewJob replies"])

prop("C20", "Agents serve one slice at a time and are never lost",
 "The master never gives an agent another layer while it still works on one (as long as the agent registered once), and an agent that answered, with an image or an error, can be used again. As long as some agent works, every job ends; a job that is cancelled by its client ends, also when there are no agents.",
 ["schedules", "fault_sequences"], "All interleavings of jobs, assignments, replies, failures and cancellations.",
 "There is no test of the master.",
 ["stl2svx/master/master.go"],
 [("idle set under its mutex", "stl2svx/master/master.go getIdleAgent, RegisterAgent, runAgent")], observe=["SliceJob calls seen by agents", "NewJob results"])

prop("C21", "A slice image shows the base minus the cuts",
 "The image that an agent returns for a layer is white exactly at the voxels of that layer that the base fills and no cutting model fills, mirrored in y, with a black border of one pixel. The image does not depend on the division of the model into regions.",
 ["inputs", "configurations"], "All base and cutting meshes, resolutions, layers and divisions, also uneven ones.",
 "There is no test of the agent.",
 ["stl2svx/agent/agent.go", "stl2svx/stl/stl.go"],
 [("region loop", "stl2svx/agent/agent.go generateMR"), ("combination of base and cuts", "stl2svx/agent/agent.go imager")], observe=["SliceJob replies"])

prop("C22", "Malformed SVX requests are refused and harm nobody",
 "A job or slice request without files or triangles, with missing or non-finite vertices, impossible resolutions or divisions, a flat model, or a layer outside of the model is answered with an error. The servers survive it: requests that follow, and other jobs in progress, are served as usual.",
 ["inputs", "histories"], "All malformed requests to the master and to the agents, alone and between well-formed ones.",
 "There is no test of the servers.",
 ["stl2svx/master/master.go", "stl2svx/agent/agent.go", "stl2svx/stl/stl.go"],
 [("validation", "stl2svx/stl/stl.go New, NewMesh; stl2svx/agent/agent.go generateMR")], observe=["RPC results and liveness of the servers"])

prop("C23", "SVX archives are consistent and convert to the right mesh",
 "The manifest of an SVX file that the master returns names exactly the images in the archive, and gives their number, their size and the size of a voxel. Converting an SVX file to STL yields the closed surface around the voxels given by the bright pixels (pixel (x,y) of image z being voxel (x,y,z)) at the manifest's voxel size; an archive without a manifest or with unreadable parts is refused.",
 ["inputs"], "All archives: any grid, image set, naming format and voxel size.",
 "TestParseManifest parses one manifest; archives are neither produced nor converted in a test.",
 ["cmd/svx2stl/main.go", "stl2svx/master/master.go"],
 [("manifest writer", "stl2svx/master/master.go writeManifest, writeBlankImages"), ("archive reader", "cmd/svx2stl/main.go read, parseManifest, scanImage")],
 observe=["NewJob replies", "STL files of svx2stl"])

prop("C24", "Dicing, cutting and merging gives the same solid as doing it at once",
 "Running the script that stldice prints (cut every region, merge the pieces) gives an STL file whose triangles bound, region by region, exactly the voxels of the base minus the cutting models at the requested resolution. The solid is the same for every division of the model.",
 ["configurations", "inputs"], "All base and cutting meshes, resolutions and divisions.",
 "No test runs more than one of the tools.",
 ["cmd/stldice/stldice.go", "cmd/voxcut/voxcut.go", "cmd/merge-stl/merge-stl.go", "binvox/voxelize.go", "binvox/mesh.go"],
 [("script", "cmd/stldice/stldice.go main"), ("regions", "cmd/stldice/stldice.go diceMesh"), ("cut", "cmd/voxcut/voxcut.go"), ("merge", "stl/stl.go Merge")],
 observe=["final STL file"])

prop("C25", "The merge tools merge all inputs and never overwrite unasked",
 "merge-stl and merge-binvox write the merge of all files that match the prefix, without the earlier output. An existing output file is left untouched, and the tool fails, unless -f is given; when there is nothing to merge, or an input cannot be read or merged, the tool exits with an error and creates no output; when the output cannot be written completely, it exits with an error.",
 ["inputs", "histories"], "All sets of files with the prefix, existing outputs, flags, and unreadable inputs.",
 "There is no test of the merge tools.",
 ["cmd/merge-stl/merge-stl.go", "cmd/merge-binvox/merge-binvox.go", "stl/stl.go", "vshell/merge.go"],
 [("check of the output file", "main of both tools"), ("merge", "stl/stl.go Merge, vshell/merge.go Merge")], observe=["directory contents and exit status"])

prop("C26", "The .vox export lists exactly the voxels",
 "The .vox file that voxcut writes is well-formed (chunk sizes and counts agree) and lists exactly the voxels of the result, each once, relative to the start of the processed section. A result that does not fit into the format is refused with an error.",
 ["inputs"], "All results and sections, with coordinates around the limit of 256.",
 "There is no test of the export.",
 ["cmd/voxcut/voxcut.go"],
 [(".vox writer", "cmd/voxcut/voxcut.go writeVOX")], observe=["files written by voxcut -ovox"])

prop("C27", "binvox-dice tiles the bounding box and cuts every piece",
 "The script that binvox-dice prints, when it is executed, voxelizes every model once in each of the boxes of equal size that divide the given bounding box along the subdivided axes, without gaps or overlaps; cuts every piece of the first model by the pieces of all other models in the same box (by the names that binvox gives to them); and writes every piece to an output of its own. Names of models may have any directory and contain %. A box that cannot be divided (corners swapped, missing or not finite, a factor below one for a subdivided axis) and missing arguments are refused with an error.",
 ["inputs", "configurations"], "All bounding boxes, factors and choices of axes and files.",
 "There is no test of binvox-dice.",
 ["cmd/binvox-dice/binvox-dice.go"],
 [("loop over boxes", "cmd/binvox-dice/binvox-dice.go main")], observe=["commands executed by the script", "files", "exit status"])

prop("C28", "The SVX client stores whole archives or reports failure",
 "stl2svx-client exits with 0 exactly when the master has answered with an archive and it is stored completely as <prefix>-<dim>-<nx>-<ny>-<nz>.svx, replacing an older file of that name. Otherwise (models that cannot be loaded, an unsound request, no master, a file that cannot be written, a master that dies meanwhile) it ends with an error and leaves no new archive. A sound job succeeds whatever agents are killed at whatever time, as long as the master lives and some agent stays or comes up; agents register an address at which the master reaches them, whatever local address they are told to listen at. A server that cannot work (address in use or not its own, no master) ends with an error.",
 ["inputs", "schedules", "crash points", "histories"],
 "All requests, local addresses, and all times at which processes of the service are killed, frozen or started again.",
 "There is no test of the client or of the server as processes.",
 ["stl2svx/stl2svx-client/stl2svx-client.go", "stl2svx/stl2svx-server/stl2svx-server.go", "stl2svx/agent/agent.go", "stl2svx/master/master.go"],
 [("client", "stl2svx/stl2svx-client/stl2svx-client.go main"), ("registration", "stl2svx/agent/agent.go New")], observe=["exit status", "archives written", "processes"])

prop("C29", "A failing read, write or close is never hidden",
 "When the device fails while an input is read (before its content has been read), or while an output is opened, written, closed or renamed, the readers and writers of binvox, shell and STL files return an error, and the tools (stldice, voxcut, voxcut-dice, binvox-dice, merge-stl, merge-binvox, manifold-mesh, marching-cubes, svx2stl) exit with an error, also when it is their standard output that fails. A read error is never taken for the end of the file. Without a failure they succeed. voxcut may instead do without the whole of a cutting model that it cannot read, and svx2stl without parts of an archive that do not matter for its output.",
 ["fault_sequences"], "A failure of any one of the system calls about any of the files, with any of the errors of a device.",
 "No test makes a read or write fail.",
 ["binvox/read.go", "binvox/write.go", "vshell/read.go", "vshell/write.go", "stl/stl.go", "cmd/stldice/stldice.go", "cmd/voxcut/voxcut.go", "cmd/svx2stl/main.go", "cmd/binvox-dice/binvox-dice.go", "cmd/voxcut-dice/voxcut-dice.go"],
 [("readers", "binvox/read.go, vshell/read.go"), ("writers", "binvox/write.go, vshell/write.go, stl/stl.go"), ("scripts on standard output", "cmd/stldice/stldice.go, cmd/binvox-dice/binvox-dice.go, cmd/voxcut-dice/voxcut-dice.go")],
 observe=["returned errors", "exit status", "system calls and their results"])

prop("C30", "A voxel model holds what has been put into it",
 "After any sequence of additions to voxel models, a model answers with white for a voxel that has been added to it, otherwise with the last color that the voxel has been given, otherwise with nothing; voxels at other places, and other models, are not affected. The box of a model or a shell begins at its position and spans each size of its grid at its resolution, which is the largest size divided by the scale (one voxel per millimeter if the scale is not positive).",
 ["histories", "inputs"], "All histories of additions to several models (new ones and ones read from files), all places, grids, positions and scales.",
 "The tests add voxels to fixed models in one order, and compute the boxes of a few grids.",
 ["binvox/binvox.go", "vshell/vshell.go"],
 [("maps of white and color voxels", "binvox/binvox.go New, Add, AddColor, Get"), ("box and resolution", "binvox/binvox.go Dim, VoxelsPerMM, MBB; vshell/vshell.go Dim, VoxelsPerMM, MBB")],
 [("WhiteVoxels, ColorVoxels", "what the model holds", "binvox/binvox.go")], ["Get", "MBB", "Dim", "VoxelsPerMM"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")

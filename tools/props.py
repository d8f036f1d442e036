"""The properties, and how each one is decided. gen.py writes properties.jsonl and MANIFEST.json."""

PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, level="exploration", observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, tech=tech, note=note, level=level, observe=list(observe)))


prop("C01", "A voxel model written as a binvox file is read back unchanged",
     "Writing a whole non-empty model to a binvox file and reading the file gives exactly the same voxels, dimensions, translation and scale, also over an older, longer file, and writing does not change the model. "
     "The file is a valid binvox 1 file: its header has the model's numbers without loss, and runs of value 0 or 1 and length 1 to 255 cover the grid exactly, with y fastest, then z, then x. "
     "A file of another tool that splits the same runs differently is read as the same model. An empty model is read back as an empty model with the same translation and scale.",
     ["inputs"], "every non-empty set of voxels inside any grid, every placement and scale, every length of runs and every splitting of them",
     "The tests write and read a handful of tiny fixed models; run lengths around the encoding's limits, extreme placements and large grids are not sampled.",
     ["binvox/read.go", "binvox/write.go", "binvox/binvox.go"],
     [("run-length encoder", "binvox/write.go:encode"), ("run-length decoder", "binvox/read.go:read")],
     "runtime monitor: independent decoder of the files and set comparison of what the reader returns",
     "Generated models (14 shapes, runs around 255 and 65535, extreme numbers); the oracle is an independent codec.")

prop("C02", "Reading a window of a model returns exactly the voxels in the window",
     "Reading a binvox or vshell file with a start and a count per axis returns exactly the voxels (and neighbor maps) of the file with start <= index < start+count on each axis, at their original indices, where a count of 0 or beyond the model means up to its end. "
     "Dimensions, translation and scale are those of the whole file. A negative start or count, or a start beyond the model, is rejected with an error.",
     ["inputs"], "every model, every window of every axis, both formats",
     "The tests read whole models and one or two windows of one small model.",
     ["binvox/read.go", "vshell/read.go"],
     [("window filter of the decoders", "binvox/read.go:read, vshell/read.go:read")],
     "runtime monitor: comparison with the filter over the independently encoded model",
     "Random windows, also empty and oversized, of random models in both formats.")

prop("C03", "Writing a window keeps its voxels where they are in world space",
     "Writing a window (start and count per axis, 0 = all) of a model to a binvox or vshell file writes exactly its voxels (with their neighbor maps) re-indexed from the start of the window, with the window's counts as dimensions. "
     "The translation of the file moves by the start of the window and its number of millimeters per voxel is that of the model, so that every voxel stays where it was in world space. "
     "The bounding box and the voxels per millimeter that a model in either format reports follow from its dimensions, translation and scale: the scale belongs to its largest dimension.",
     ["inputs"], "every model and placement, every window inside of or reaching beyond the model, both formats",
     "The tests compare whole written models; no test looks at the placement or resolution of a written window.",
     ["binvox/write.go", "vshell/write.go", "binvox/binvox.go", "vshell/vshell.go"],
     [("header of a window", "binvox/write.go:write, vshell/write.go:write"), ("scale helpers", "binvox/binvox.go:VoxelsPerMM,MBB; vshell/vshell.go")],
     "runtime monitor: written files decoded independently and compared in world space",
     "Translation and resolution to 1e-9 relative; voxels exactly.")

prop("C04", "Malformed voxel files are rejected and never crash the reader",
     "For every sequence of bytes, reading it as a binvox or vshell file ends without crash or hang, either with an error and no model, or with a model whose voxels all lie within its dimensions. "
     "A file with a wrong or incomplete header, a run value other than 0 or 1 (binvox), a zero run length (binvox, and vshell voxels), an incomplete run, or more voxels than its dimensions hold is rejected; a file that ends between two runs is accepted and the rest is empty. "
     "An accepted file gives exactly the voxels that its runs describe (in a vshell file, values 0 and 0xffffffff with 16-bit run lengths are no voxels, and bit 13 is not part of the neighbor map).",
     ["inputs"], "all byte sequences: mutated, truncated, random and hostile headers and data",
     "The tests feed a few hand-written broken files; all byte sequences cannot be listed.",
     ["binvox/read.go", "vshell/read.go"],
     [("validation in the decoders", "binvox/read.go:read, vshell/read.go:read")],
     "runtime monitor under hostile inputs: reference decoder judges verdict and voxels, bounds and crash monitors",
     "Mutation, truncation at every byte, and grammar-based headers; resource exhaustion by huge dimensions is out of scope.")

prop("C05", "A voxel file that could not be written completely is reported",
     "When writing a binvox or vshell file fails at any byte (device full, file size limit, directory missing or not writable), the writer returns an error; when it returns no error, the file has all of its bytes. "
     "A failed write does not hang, crash, leave goroutines behind or leave the file open.",
     ["fault_sequences", "crash_points", "inputs"], "every model (also an empty one) and every byte position at which the device stops accepting data",
     "The tests write to memory buffers that never fail.",
     ["binvox/write.go", "vshell/write.go"],
     [("error returns of the writers", "binvox/write.go:Write, vshell/write.go:Write"), ("draining of the encoder", "vshell/write.go:write")],
     "fault injection at every byte (RLIMIT_FSIZE, /dev/full) with monitors of error, file, goroutines and descriptors",
     "Small files: every byte position; larger files: about 200 positions. Close errors of network file systems are not injected.",
     level="fault_enumeration")

prop("C06", "A voxel shell written as a vshell file is read back unchanged",
     "Writing a whole non-empty shell to a vshell file and reading the file gives exactly the same voxels, neighbor maps, dimensions, translation and scale, independent of the order of the voxels, for every neighbor map (also of a voxel without neighbors) and for runs of any length. "
     "The file is a valid vshell 1 file that covers the grid exactly (y fastest, then z, then x; little-endian 32-bit maps; 16-bit run lengths for empty runs, 8-bit for voxels), and a file that splits its runs differently is read as the same shell. An empty shell is read back as an empty shell with the same translation and scale.",
     ["inputs"], "every shell in every grid: all neighbor maps, isolated voxels, runs beyond 255 and 65535",
     "The tests write a few small shells, without isolated voxels and without long runs.",
     ["vshell/write.go", "vshell/read.go"],
     [("run-length encoder", "vshell/write.go:encode"), ("run-length decoder", "vshell/read.go:read")],
     "runtime monitor: independent decoder of the files and comparison of maps",
     "Generated shells of real models and with arbitrary maps; oracle is an independent codec.")

prop("C07", "The shell of a model is exactly its voxels with a missing neighbor",
     "The shell made from a voxel model (white or color voxels, in memory or from one file) lists each voxel that lacks at least one of its 26 neighbors exactly once and no other voxel. "
     "Its neighbor map has exactly the bits of the neighbors that are present, bit (dx+1)*9+(dy+1)*3+(dz+1). Dimensions, translation and scale are those of the model, and an empty model has an empty shell.",
     ["inputs"], "every voxel model",
     "The tests compare the shells of about ten tiny models.",
     ["vshell/merge.go", "vshell/vshell.go"],
     [("neighbor search", "vshell/merge.go:Add,findNeighbors")],
     "runtime monitor: comparison with the definition of the shell, all 2x2x2 models and random ones",
     "The definition is evaluated naively for every voxel.")

prop("C08", "Merging disjoint models gives the shell of their union",
     "Merging disjoint voxel models of the same resolution into one shell, one after the other or from files, gives the shell of their union: the same voxels at the same places in world space with the same neighbor maps as the shell of a single model, in every order of merging, with parts on any side of each other, and with empty models among them. "
     "The result keeps the number of millimeters per voxel, its voxels are distinct and within its dimensions, and models are placed on the nearest voxel when their translations are not exactly aligned. "
     "A model whose resolution clearly differs (5 % or more) and a file that cannot be read are rejected with an error, and a rejected model leaves the shell as it was.",
     ["inputs", "histories"], "every partition of a model into disjoint parts, every order of merging, every relative placement",
     "The tests merge pairs of models of one or two voxels in one order.",
     ["vshell/merge.go"],
     [("alignment of translations", "vshell/merge.go:update"), ("neighbor updates of old voxels", "vshell/merge.go:Add")],
     "runtime monitor: merged shells compared in world space with the shell of the union, over orders of merging",
     "Overlapping models are out of scope (the code does not support them).")

prop("C09", "Voxelizing a solid fills its inside and nothing outside of it",
     "Voxelizing a closed mesh (convex or concave, with cavities, several or overlapping bodies) in a region decides each layer of voxels at the height of the voxels' centers: every voxel whose center is inside of the solid and more than 1.5 voxels from the outline in that layer is occupied, and every voxel whose center is outside and more than 1.5 voxels from it is empty. "
     "The outline itself never vanishes: every voxel in which it has a corner is occupied, also where the solid is thinner than a voxel. "
     "For a box parallel to the axes, exactly the voxels that overlap it at the height of their centers are occupied.",
     ["inputs"], "every closed oriented mesh, every region, placement and resolution, also with vertices exactly on layers",
     "The tests voxelize one small mesh and compare it with recorded voxels.",
     ["binvox/voxelize.go"],
     [("slicing", "binvox/voxelize.go:intersectTriZPlane"), ("outline", "binvox/voxelize.go:rasterizeShellPair"), ("filling", "binvox/voxelize.go:floodFill")],
     "runtime monitor: geometric oracle (winding number and distance to the outline) judges every voxel",
     "Eleven families of solids, generic and with vertices on layers; layers that contain a face of the solid are not judged.")

prop("C10", "Tiles, single slices and repeated runs of a voxelization agree",
     "Voxelizing a region never gives a voxel outside of the region and does not change the mesh or the region's placement, and replaces voxels that were there before. "
     "Splitting a region into tiles at voxel borders, or asking for single slices, gives exactly the corresponding part of the voxels of the whole region. "
     "The result does not depend on scheduling or on voxelizations that run at the same time, there is no data race, and a region with a zero dimension is an error.",
     ["inputs", "schedules"], "every mesh, every tiling of every region, every interleaving of the workers",
     "The tests voxelize one mesh once; neither tilings nor schedules are varied and the race detector is off.",
     ["binvox/voxelize.go"],
     [("region limits", "binvox/voxelize.go:rasterizeShellPair,floodFill"), ("locking of the result", "binvox/voxelize.go:Voxelize")],
     "race detector and metamorphic monitors: tile, slice and schedule comparisons",
     "Exactly aligned (dyadic) tiles; schedules vary by GOMAXPROCS and concurrent calls under -race.")

_mesh_why = "The tests compare the meshes of a few fixed models; most of the 256 cell configurations and their combinations are never checked for closedness."
prop("C11", "The manifold mesh is closed and encloses exactly the model's voxels",
     "For every voxel model (white or color voxels), the manifold mesh is a closed oriented surface (every edge is matched by opposite edges), placed in world space by the model's translation and resolution. "
     "It winds exactly once around the center of every occupied voxel and not at all around the center of any other voxel, and does not reach beyond the cubes of the model's voxels.",
     ["inputs"], "every voxel model: all 256 configurations of a cell in all combinations",
     _mesh_why, ["binvox/manifold.go", "binvox/face-templates.go"],
     [("templates and rotations per cell configuration", "binvox/manifold.go:grid2tris")],
     "runtime monitor: exact edge cancellation on the lattice and winding numbers at voxel centers",
     "All 2x2x2 models, random 2x2x3 models (all in the thorough tier) and random larger models.")
prop("C12", "The marching cubes mesh is closed and encloses exactly the model's voxels",
     "For every voxel model (white or color voxels), the marching cubes mesh is a closed oriented surface (every edge is matched by opposite edges), placed in world space by the model's translation and resolution. "
     "It winds exactly once around the center of every occupied voxel and not at all around the center of any other voxel, and does not reach beyond the cubes of the model's voxels.",
     ["inputs"], "every voxel model: all 256 configurations of a cell in all combinations",
     _mesh_why, ["binvox/marching-cubes.go"],
     [("edge and triangle tables", "binvox/marching-cubes.go:polygonize"), ("grid cells", "binvox/marching-cubes.go:MarchingCubes")],
     "runtime monitor: exact edge cancellation on the lattice and winding numbers at voxel centers",
     "All 2x2x2 models, random 2x2x3 models (all in the thorough tier) and random larger models.")
prop("C13", "The voxel mesh covers exactly the exposed faces of the voxels",
     "The mesh made of a model's voxels as cubes (white or color voxels) covers each face between an occupied and an empty voxel exactly once, oriented outward, and nothing else. "
     "It lies where the voxels are in world space: the cube of voxel (i,j,k) spans from the translation plus (i,j,k) to the translation plus (i+1,j+1,k+1) times the millimeters per voxel.",
     ["inputs"], "every voxel model and placement",
     "No test looks at this mesh.", ["binvox/mesh.go"],
     [("transformation into world space", "binvox/mesh.go:ToMesh")],
     "runtime monitor: exact cover of the exposed faces, by sampled points and total area",
     "All 2x2x2 models and random models.")

prop("C14", "The mesh commands write a complete closed STL file of the model",
     "manifold-mesh and marching-cubes read the binvox file given first and write the STL file given second, whose mesh is complete and closed and winds exactly once around the center of every occupied voxel of the file and around no other voxel's center, at its place in world space. "
     "An older output file is replaced completely, the input file is not changed, and the exit status is 0. "
     "With a missing or malformed input, an output that cannot be created, or another number of arguments, the command exits with a non-zero status and a message, and does not crash.",
     ["inputs", "fault_sequences"], "every binvox file and model, hostile files and unwritable outputs",
     "The commands have no tests.",
     ["cmd/manifold-mesh/manifold-mesh.go", "cmd/marching-cubes/marching-cubes.go", "binvox/manifold.go", "binvox/marching-cubes.go"],
     [("output naming and error paths", "cmd/manifold-mesh/manifold-mesh.go:main, cmd/marching-cubes/marching-cubes.go:main")],
     "runtime monitor of the built commands: independent STL decoder, closedness and winding numbers at voxel centers",
     "Write errors that only show at flush time are swallowed by the fauxgl library and are out of scope.")

prop("C15", "voxcut removes exactly the voxels of the cutting models from the base",
     "voxcut writes a binvox file of the window (start and count per axis, 0 = to the end) of the base model without the voxels that any of the cutting models occupies at the same place in world space, whatever the translations of the models are (a cutting model is aligned to the nearest voxel). "
     "The result begins at the start of the window and is as long as its count, and keeps the base model's millimeters per voxel and the place of every voxel in world space. Input files are not changed. Cutting files that cannot be read are skipped. An empty result is not an error. "
     "A base that is missing or malformed, a start beyond the model, a negative start or count, a missing output directory, no input files or no requested output give a non-zero exit status and no output.",
     ["inputs"], "every base model, every number and placement of cutting models, every window",
     "voxcut has no tests.",
     ["cmd/voxcut/voxcut.go", "binvox/read.go", "binvox/write.go"],
     [("alignment of the cutting models", "cmd/voxcut/voxcut.go:offset,readCut"), ("removal of the cut voxels", "cmd/voxcut/voxcut.go:voxcut")],
     "runtime monitor of the built command: set algebra in world space on independently coded files",
     "Generated bases and up to 4 cutting models at exact and slightly noisy offsets.")

prop("C16", "The formats that voxcut writes describe the same voxels",
     "Whatever formats are asked of voxcut in one call, all files describe the voxels of the same result: the binvox file; the .vox file, which is a valid MagicaVoxel file (sizes of chunks, SIZE, XYZI) with every voxel once, relative to the window and with a color other than 0; and the STL file, which covers exactly the exposed faces of the voxels, or, with -manifold, is a closed surface that winds once around exactly those voxels' centers. -smooth does not change the geometry. "
     "The STL lies at the voxels' place in world space. A .vox file for a window of more than 256 voxels on an axis is refused, and an output that cannot be written completely, at whatever system call and only for a moment, gives a non-zero exit status.",
     ["inputs", "fault_sequences"], "every result model, every combination of output formats and options",
     "No test reads what voxcut writes.",
     ["cmd/voxcut/voxcut.go", "binvox/mesh.go", "binvox/manifold.go"],
     [("MagicaVoxel writer", "cmd/voxcut/voxcut.go:writeVOX"), ("mesh output", "cmd/voxcut/voxcut.go:main")],
     "runtime monitor of the built command: independent decoders of three formats compared with each other and the model",
     "Hundreds of calls over all subsets of formats and options.")

prop("C17", "voxcut-dice cuts the base into tiles that partition the result",
     "voxcut-dice applies voxcut to cubes of the given size that partition the base: the tiles together have exactly the voxels of base minus cuts, each once and at its place, only the formats asked for are written, and every tile with voxels has its files, named by the prefix and the tile's start and size. Input files are not changed. "
     "A dry run writes nothing and prints a script that has the same result in bash, whatever characters file names and prefixes contain. "
     "A size that is not positive or larger than all dimensions of the base, no input or no requested output, and a base or output that cannot be read or written give a non-zero exit status, without crash or endless loop.",
     ["inputs", "fault_sequences"], "every base, size of tiles (also not dividing the model evenly), cutting models and format",
     "voxcut-dice has no tests.",
     ["cmd/voxcut-dice/voxcut-dice.go", "cmd/voxcut/voxcut.go"],
     [("loops over the tiles and their names", "cmd/voxcut-dice/voxcut-dice.go:main")],
     "runtime monitor of the built commands: conservation of voxels over all tiles, dry-run script executed and compared",
     "Generated bases, sizes 1 to beyond the model.")

prop("C18", "binvox-dice scripts cover the bounding box exactly once",
     "The commands that binvox-dice prints voxelize boxes that partition the given bounding box: the chosen axes (x and y by default) are divided into factor (8 by default) equal parts, each part of each file appears exactly once with its own output, each box is given to binvox at a resolution of at most 1024, and every spelling of the bounding box that is accepted means the box it says. bash passes every file name to the commands as it was given, whatever characters it contains. "
     "A malformed bounding box, a missing one, or no files give a non-zero exit status and no commands.",
     ["inputs"], "every bounding box, factor, choice of axes and list of files",
     "binvox-dice has no tests.",
     ["cmd/binvox-dice/binvox-dice.go"],
     [("subdivision and parsing of the box", "cmd/binvox-dice/binvox-dice.go:main")],
     "runtime monitor of the built command: interpreter of the printed commands checks the exact cover",
     "The external binvox tool is not run; its printed arguments are interpreted.")

prop("C19", "stldice tiles cover the model, and an interrupted run can be resumed",
     "stldice writes, for each STL file, tiles that partition the bounding box at the asked resolution: each tile lies at its place, and together they are the voxelization of the mesh (inside full, outside empty, within 1.5 voxels of the outline either). The script it prints makes, run by bash, the solid of the first file minus the other files, whatever directories and characters are in the file names. "
     "A tile under its final name is always complete: after a kill, a failing system call or a full device at any point, the remaining tiles are missing, the exit status is not 0 if any tile is missing, and a later run keeps the existing tiles, makes the missing ones and prints the same script as an uninterrupted run. "
     "Missing or malformed STL files and wrong arguments give a non-zero exit status.",
     ["inputs", "crash_points", "fault_sequences", "histories"], "every mesh, tiling and resolution; every point of interruption",
     "stldice has no tests, and no test interrupts it.",
     ["cmd/stldice/stldice.go", "binvox/voxelize.go", "binvox/write.go"],
     [("tiles, resume, temporary file and rename", "cmd/stldice/stldice.go:diceMesh"), ("printed script", "cmd/stldice/stldice.go:main")],
     "fault injection into the built command (kill, strace syscall faults, file size limits) with monitors of tiles, script and status",
     "Kill points are sampled in time, failing system calls are enumerated by number; the printed script is executed.",
     level="fault_enumeration")

prop("C20", "Merging STL files keeps every triangle of every file",
     "Merging a list of STL files in memory gives a mesh with exactly the triangles of all files, each as often as it appears in them, for every number of workers, without data race, deadlock or change of the files, and with at most the given number of files being loaded at the same time. "
     "When any file cannot be read, the result is an error and no mesh.",
     ["inputs", "schedules", "fault_sequences"], "every list of files (binary, ASCII, empty, unreadable, the same file twice), every number of workers, every interleaving",
     "The package has no tests.",
     ["stl/stl.go"],
     [("worker pool and result collection", "stl/stl.go:Merge,merge")],
     "race detector and conservation monitor of triangles as a multiset, FIFOs as probes of concurrent loads",
     "Load concurrency is observed with FIFOs as input files; schedules vary by GOMAXPROCS and worker count.")

prop("C21", "The merge commands write everything they were given or fail",
     "merge-stl merges all files <prefix>*.stl into <prefix>.stl with all triangles of all of them, and merge-binvox merges all (disjoint) models <prefix>*.binvox into <prefix>.vsh, the shell of their union. The prefix is a literal string, not a pattern. "
     "An existing output is not touched without -f, and is replaced completely with it; and the output of an earlier run is not merged again. "
     "No inputs, an input that cannot be read, models of clearly different resolution, or an output that cannot be written give a non-zero exit status; exit status 0 means that the output is complete.",
     ["inputs", "fault_sequences", "histories"], "every set of files and models, options, and failures of reads and writes",
     "The commands have no tests.",
     ["cmd/merge-stl/merge-stl.go", "cmd/merge-binvox/merge-binvox.go", "stl/stl.go", "vshell/merge.go"],
     [("overwrite protection", "cmd/merge-stl/merge-stl.go:main, cmd/merge-binvox/merge-binvox.go:main")],
     "runtime monitor of the built commands with injected write faults; multiset and world-space comparison",
     "strace makes writes fail one after the other for merge-binvox; fauxgl hides flush errors of merge-stl.")

prop("C22", "svx2stl encloses exactly the white voxels of the SVX archive",
     "svx2stl turns an SVX archive into a closed STL mesh that winds once around the center of every voxel whose image is white (at least half intensity) and around no other, at the grid's voxel size (in meters, times 1000) and for slices along the Y and the Z axis, wherever manifest.xml is in the archive and in whatever order the images are. "
     "Input archives are not changed and old outputs are replaced. Entries for directories do not matter. An archive that is damaged, has no valid manifest (with grid sizes and a voxel size above 0), or holds a slice that is no image gives a non-zero exit status and no STL.",
     ["inputs"], "every grid, orientation, voxel size and archive layout; malformed archives",
     "svx2stl has no tests.",
     ["cmd/svx2stl/main.go"],
     [("manifest and slice naming", "cmd/svx2stl/main.go:read,parseManifest"), ("orientation of slices", "cmd/svx2stl/main.go:scanImage,parseOrientation")],
     "runtime monitor of the built command: independently written archives, winding numbers at voxel centers",
     "Generated archives; images in the PNG color types that Go writes.")

_stlfiles = ["stl2svx/agent/agent.go", "stl2svx/master/master.go", "stl2svx/stl/stl.go", "stl2svx/stl2svx-server/stl2svx-server.go"]
prop("C23", "A slice image shows the first solid minus the others at its height",
     "The image that an agent returns for slice z of a job shows exactly the section of the first STL file minus all other files at the height of that slice: white inside, black outside, either within 1.5 pixels of an outline. "
     "It has a black border of one pixel around the model's dimensions, is mirrored in Y as the SVX format requires, and the far end of the region is part of it. "
     "It does not depend on the subdivision n_x, n_y, n_z, on the order of requests, or on other requests that run at the same time.",
     ["inputs", "schedules"], "every list of meshes, region, dimension, subdivision and slice; concurrent requests",
     "The agent has no tests.",
     ["stl2svx/agent/agent.go", "stl2svx/stl/stl.go", "binvox/voxelize.go"],
     [("subregions of a slice", "stl2svx/agent/agent.go:generateMR"), ("voxels and subtraction of cuts", "stl2svx/agent/agent.go:voxelize,imager")],
     "runtime monitor of the real agent over gRPC: geometric oracle per pixel, and comparison across subdivisions",
     "Slices whose layer contains a face of a solid are not judged exactly.")

prop("C24", "A slicing job is complete or an error whatever the agents do",
     "When NewJob succeeds, the SVX file it returns has exactly the images that the agents made for all slices, plus the blank first and last slice and the manifest. "
     "An agent that dies, is unavailable or fails in the transport during a job does not make the job fail or lose slices as long as another agent works, and an agent that registers late takes part. "
     "An agent that answers with an error leads to a complete file or an error, never to an incomplete file with success. "
     "A failed or canceled job returns no file, a canceled job returns promptly, and agents stay usable for later jobs.",
     ["fault_sequences", "crash_points", "schedules", "histories"], "every number of agents and slices, every failure of any agent at any slice, cancellation at any time",
     "The master has no tests.",
     ["stl2svx/master/master.go"],
     [("dispatch to agents and retry", "stl2svx/master/master.go:NewJob,runAgent"), ("archive", "stl2svx/master/master.go:runAgent,writeBlankImages")],
     "fault-injecting fake agents over gRPC against the real master; offline checker of the archive against the agents' log",
     "Faults: closed listeners, Unavailable, error replies, death in mid-call, long delays, cancellation; sampled schedules.",
     level="fault_enumeration")

prop("C25", "Jobs that run at the same time do not disturb each other",
     "Jobs submitted to one master at the same time, also with the same prefix and dimensions, each return an SVX file of their own that holds exactly the images of that job's slices, or an error, and the failure or cancellation of one job does not change the result of another.",
     ["schedules", "histories", "fault_sequences"], "every number of concurrent jobs and agents and every interleaving",
     "The master has no tests.",
     ["stl2svx/master/master.go"],
     [("archive per job", "stl2svx/master/master.go:svx"), ("shared pool of agents", "stl2svx/master/master.go:getIdleAgent")],
     "runtime monitor: images carry the job's and slice's identity, offline checker over archives; master built with -race",
     "Two to eight concurrent jobs with random delays of the agents.")

prop("C26", "Each slice goes to one idle agent, and idle agents are all used",
     "The master sends each slice of a job to exactly one agent (again only after a failure), with the whole description of the job (region, dimensions, subdivision and all STL data), and never gives an agent a second slice while it works on one. "
     "All idle agents work at the same time when there are enough slices.",
     ["schedules", "histories"], "every number of agents, slices and jobs and every order in which agents answer",
     "The master has no tests.",
     ["stl2svx/master/master.go"],
     [("agent pool", "stl2svx/master/master.go:getIdleAgent")],
     "online monitor in fake agents of concurrent calls per agent, exactly-once log checker, gate that opens only when all agents work",
     "Up to 8 agents; the gate decides parallelism without timing assumptions other than a long timeout.")

prop("C27", "No request stops a server, and valid requests keep working",
     "Whatever request or bytes a client sends to the stl2svx master, agent or the stldice slave or master (malformed STL data, false numbers of triangles, missing vertices, zero or negative dimensions and subdivisions, empty or nested boxes, invalid files, random bytes), the server answers with an error or an empty reply, stays alive, and answers later valid requests correctly. "
     "The servers listen on the port that they are told.",
     ["inputs", "histories"], "every request to every method, random and mutated wire data, any sequence of them",
     "The servers have no tests.",
     _stlfiles + ["server/stldice-slave/stldice-slave.go", "server/stldice-master/stldice-master.go"],
     [("validation of requests", "stl2svx/agent/agent.go:SliceJob, stl2svx/master/master.go:NewJob, server/stldice-slave/stldice-slave.go:AddSTLMesh")],
     "runtime monitor under hostile requests: liveness and later-correctness monitors of the real servers",
     "Huge dimensions (resource exhaustion) are excluded.")

prop("C28", "The SVX manifest describes exactly what the archive contains",
     "In every SVX file of a job, manifest.xml is well-formed and consistent with the archive: grid sizes equal the number and the size of the images, the channel's name pattern names exactly the images in the archive, the voxel size is the largest extent of the base model over the dimension (in meters), the origin is the minimum of the base model (in millimeters, in the axes of the archive), and the first and the last image are blank. "
     "Read as a voxel grid by the manifest alone, the archive is the model (inside white, outside black, either within 1.5 voxels of the outline).",
     ["inputs"], "every job: mesh, region, dimensions and subdivision",
     "The master has no tests.",
     ["stl2svx/master/master.go"],
     [("manifest", "stl2svx/master/master.go:writeManifest")],
     "runtime monitor of the real master: independent SVX reader, geometric oracle in world space",
     "Generated jobs, run by the real master and 16 real agents in the checking process; the geometry is decided up to 1.5 voxels from the outline.")

prop("C29", "The stldice slave returns the complete mesh of its model",
     "GetSTLMesh of stldice-slave returns the model that is stored for the given region (the binvox file in its working directory named model-<llx>-<lly>-<llz>-<urx>-<ury>-<urz>-<nx>-<ny>-<nz>.binvox) as a complete binary STL file of any number of triangles: "
     "a closed surface that winds exactly once around the center of every occupied voxel and around no other voxel's center, at the model's place in world space, with the facet normals of its triangles. The stored model stays as it is. "
     "Without a model for exactly this region, or with a malformed one, GetSTLMesh returns an error, and the slave keeps working.",
     ["inputs", "histories"], "every stored model and region; every sequence of calls",
     "The slave has no tests.",
     ["server/stldice-slave/stldice-slave.go", "binvox/read.go", "binvox/manifold.go"],
     [("mesh of the slave", "server/stldice-slave/stldice-slave.go:GetSTLMesh")],
     "runtime monitor of the real slave over gRPC: independent STL decoder, closedness and winding numbers at voxel centers",
     "Generated models, also with more than 65535 triangles. AddSTLMesh and SubSTLMesh always fail (voxelize is not implemented) and are only covered by C27.")

prop("C30", "stl2svx and svx2stl together reproduce the model, or fail cleanly",
     "The stl2svx client with a master and any number of agents as processes writes the file <prefix>-<dim>-<nx>-<ny>-<nz>.svx that describes the first STL file minus the others, and svx2stl turns it into a closed mesh of that solid. "
     "A missing or malformed STL file, an unreachable or killed master, or a failing job give a non-zero exit status of the client and no file of that name. An SVX file that cannot be written completely gives a non-zero exit status too. "
     "An agent that is killed at any time does not change the result as long as another one lives, and agents on the local machine register at an address that the master can reach.",
     ["inputs", "crash_points", "fault_sequences"], "every job, every number of agents, a kill of any process at any time",
     "No test runs the programs together.",
     _stlfiles + ["stl2svx/stl2svx-client/stl2svx-client.go", "cmd/svx2stl/main.go"],
     [("client", "stl2svx/stl2svx-client/stl2svx-client.go:main"), ("registration of agents", "stl2svx/stl2svx-server/stl2svx-server.go:getAddress, stl2svx/agent/agent.go:New")],
     "end-to-end runtime monitor of real processes with injected kills; geometric oracle on archive and mesh",
     "Kill times are sampled; all traffic is on the loopback network.",
     level="fault_enumeration")

prop("C31", "An input file that cannot be read to its end never passes for complete",
     "When reading an input file fails at any point (an I/O error at any read), binvox.Read and vshell.Read return an error, and manifold-mesh, marching-cubes, voxcut (for its base), voxcut-dice, merge-binvox, merge-stl, svx2stl, stldice, stl2svx-client, stl2svx and stldice-mr end with a non-zero status. "
     "None of them hangs, and none reports success with a result that differs from that of the complete file.",
     ["fault_sequences", "crash_points", "inputs"], "every input file and every read of it that fails",
     "The tests read files that are always readable to their end.",
     ["binvox/read.go", "vshell/read.go", "stl/stl.go", "cmd/voxcut/voxcut.go", "cmd/svx2stl/main.go", "cmd/stldice/stldice.go", "stl2svx/stl2svx-client/stl2svx-client.go"],
     [("errors while decoding", "binvox/read.go:read, vshell/read.go:read"), ("errors of the loaders", "cmd/*, stl2svx/stl2svx-client/stl2svx-client.go:loadSTL")],
     "fault injection at system calls (strace makes the n-th read of one file fail) under the real readers and commands; differential monitor against the undisturbed run",
     "First, last and random reads of every kind of input. Cut files of voxcut that cannot be read are skipped by design and not judged. The panic of the third-party loader of ASCII STL files on a partial triangle counts as reported.",
     level="fault_enumeration")

prop("C32", "A model in memory holds exactly the voxels that were added to it",
     "After any history of Add (white models) or AddColor (full-color models) on a model made by binvox.New, Get finds exactly the added voxels at exactly their coordinates, white or with the color added last, and finds nothing anywhere else; queries change nothing. "
     "New keeps the dimensions, placement and scale. Dim is the largest dimension, VoxelsPerMM is Dim over Scale and MBB reaches from the translation over all voxels, for models in both formats, and vshell.New keeps all of these. "
     "The printed form of a neighbor map denotes exactly its neighbors.",
     ["histories", "inputs"], "every history of additions and queries, every dimension and placement, every neighbor map",
     "The tests build a few small models and never query them again; no test prints a neighbor map.",
     ["binvox/binvox.go", "vshell/vshell.go"],
     [("voxel maps", "binvox/binvox.go:New,Get,Add,AddColor"), ("scale helpers", "binvox/binvox.go:Dim,VoxelsPerMM,MBB; vshell/vshell.go"), ("printed neighbor maps", "vshell/vshell.go:NeighborBitMap.String")],
     "runtime monitor: random histories run against a reference model, compared after every step; an evaluator of printed neighbor maps",
     "Histories of 60 steps; neighbor maps of single, few, many and all but one neighbors.")

prop("C33", "The stl2svx command writes a complete archive of base minus cuts",
     "The stand-alone stl2svx command writes the file out<dim>.svx in its working directory (with -bucket: the object of that name, which must exist when the command succeeds), replacing an older one. "
     "It describes exactly the first STL file minus the others, for any divisions nx, ny, nz that do not exceed the model's dimensions in voxels: grid sizes, name pattern, voxel size (in meters), origin, images and blank first and last image as in the archives of the master, inside white, outside black, either within 1.5 voxels of the outline. svx2stl turns it into a closed mesh of that model. "
     "A missing or empty base, a missing cut, no STL file, too many divisions, or an archive that cannot be created, written or closed give a non-zero exit status without a crash. There is no data race.",
     ["inputs", "schedules", "fault_sequences"], "every base, every number of cuts, every dimension and division, both kinds of output, every system call on the output that fails",
     "The command has no tests, and at the pinned versions of its dependencies it does not even compile.",
     ["cmd/stl2svx/stl2svx.go", "binvox/voxelize.go"],
     [("subregions", "cmd/stl2svx/stl2svx.go:generateMR"), ("slices", "cmd/stl2svx/stl2svx.go:voxelize,imager"), ("manifest and output", "cmd/stl2svx/stl2svx.go:writeManifest,main")],
     "runtime monitor of the built command (also with the race detector), with stand-ins for the Google Cloud clients: independent SVX reader, geometric oracle, system-call faults",
     "The Google Cloud client libraries do not compile with the pinned gRPC; the command is built with stand-ins for them (a bucket is a directory, an object appears when its writer is closed).",
     level="fault_enumeration")

prop("C34", "stldice-mr writes the stack of images of base minus cuts",
     "stldice-mr in standalone mode writes PNG images of dim x dim pixels named out-<dim>-<nx>-<ny>-<nz>-<z>.png into its working directory, at most one for each layer z of voxels of the first model and no others. "
     "Pixel (x, y) of image z is white if and only if voxel (x, y, z), counted from the minimum of the first model, is inside of the first STL file and outside of the others (either within 1.5 voxels of the outline), for any divisions that do not exceed the model's dimensions; layers without an image have no white voxels. "
     "A missing or empty base, a missing cut, no STL file and too many divisions give a non-zero exit status without a crash.",
     ["inputs", "schedules"], "every base, every number of cuts, every dimension and division, every order in which the voxels arrive",
     "The command has no tests.",
     ["cmd/stldice-mr/stldice-mr.go", "mr/mr.pb.go", "binvox/voxelize.go"],
     [("subregions", "cmd/stldice-mr/stldice-mr.go:generateMR"), ("mapper", "cmd/stldice-mr/stldice-mr.go:voxelize"), ("images", "cmd/stldice-mr/stldice-mr.go:imager")],
     "runtime monitor of the built command with its mapper processes: independent PNG reader, geometric oracle",
     "Standalone mode only. The MapReduce library gleam hides the failure of a mapper process from the driver, so that errors while writing images are not judged.")

#!/usr/bin/env python3
"""Writes properties.jsonl. Edit the table here; run; commit both."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })

prop("C01", "Snapshot conversion keeps every particle at its Lagrangian place",
  "Converting an LGadget-2/Arepo-type-2 snapshot writes exactly Cells^3 distinct sheet files, in which the particle with ID i (1-based) sits at initial-lattice site i-1 in x-fastest order; each segment holds its own block of sites plus the next layer on its three upper faces, wrapped periodically, so every particle is present and neighbouring segments agree bit for bit on shared sites. Positions, wrapped into [0, BoxSize), and velocities, times sqrt(scale factor), are the snapshot's values multiplied by XUnits and VUnits. The output does not depend on how the snapshot is divided into files, the order of particles or files, or whether IDs are 32/64 bit and coordinates float32/float64, and every snapshot in a requested iteration range is converted.",
  ["inputs", "configurations"],
  "every lattice size, Cells that divides it (including more than 10 per side), file split, particle order, ID size, coordinate precision, unit factors and iteration range",
  "No test covers render/main or render/io at all; a hand-written example could not cover the combinations of split, order, Cells, wrap-around face and unit factor in which an index slip hides.",
  ["render/main/main.go", "render/io/io.go", "render/io/buffer.go"],
  [("lattice gather by ID", "render/io/buffer.go:Flush"), ("segment copy with periodic neighbour layer", "render/main/main.go:copyToSegment"), ("unit conversion", "render/main/main.go:createGrids"), ("file naming", "render/main/main.go:writeGrids")],
  ["the sheet files written by 'main -ConvertSnapshot', parsed by an independent reader"])

prop("C02", "Sheet headers describe their segment and simulation truthfully",
  "Every sheet file's header states the snapshot's redshift, OmegaM, OmegaL and h, the particle mass (times MUnits), the simulation width in output units (times XUnits), the particles per side, the segment's unique index (x-fastest) and cell count, and segment/grid widths and counts that match its payload. Its position box (origin inside [0, width)) contains, modulo the periodic simulation, every particle in the file and is tight to float rounding, and its velocity box likewise contains every velocity in the file and is tight. This holds whenever a segment spans less than half the simulation.",
  ["inputs", "configurations"],
  "every snapshot, unit factors, Cells and particle distribution, including segments straddling one, two or three periodic faces and segments whose velocities exclude the first particle's",
  "Untested today; whether a bounding box is right depends on the particle distribution and on which periodic faces a segment straddles, and a slightly small box makes later rendering skip a segment silently.",
  ["render/main/main.go", "render/io/io.go", "python/gtet.py"],
  [("incremental periodic bounding box", "render/main/main.go:boundingBox.Add"), ("header assembly", "render/main/main.go:writeGrids, copyToSegment"), ("Gadget header standardisation", "render/io/io.go:Standardize")],
  ["header bytes of sheet files written by the converter", "io.ReadSheetHeaderAt", "python/gtet.py File"])

prop("C03", "Sheet files round-trip exactly and damaged ones are refused",
  "Writing a sheet file and reading it back returns the same header, positions and velocities bit for bit, files of either byte order are read to the same values, and neither writing nor reading changes the caller's other data. Reading a file that does not exist, is cut short at any byte before the end of the requested block, declares a wrong header size or byte-order flag, or does not match the length of the supplied buffer is refused with an error (or panic), never reported as success. Writing vectors whose number differs from the header's grid is refused and leaves no file.",
  ["inputs", "fault_sequences", "crash_points"],
  "every grid width and float bit pattern (including NaN payloads, infinities, denormals and signed zero), both byte orders, and every truncation point of the file",
  "There are no I/O tests; the truncation points and byte patterns are far too many to list by hand and a short read looks like success.",
  ["render/io/io.go"],
  [("byte-cast vector I/O", "render/io/io.go:readVecAsByte, writeVecAsByte"), ("header read with size check", "render/io/io.go:readSheetHeaderAt"), ("length checks", "render/io/io.go:ReadSheetPositionsAt, ReadSheetVelocitiesAt")],
  ["io.WriteSheet / io.ReadSheetHeaderAt / io.ReadSheetPositionsAt / io.ReadSheetVelocitiesAt return values and buffers", "bytes on disk"])

prop("C04", "Gadget snapshots are read faithfully or refused",
  "Reading a Gadget-2 file returns the header's counts, mass, box width and cosmology and the particles exactly as stored, in file order: IDs unchanged, positions wrapped once into [0, BoxSize), velocities times sqrt(Time), for float32 and float64 blocks, 32- and 64-bit IDs, and both byte orders. A missing file, a file cut short anywhere in its header, position, velocity or ID data, a position or velocity block whose size matches neither precision, an unsupported ID size, or buffers of the wrong length are refused loudly, never returned as zero, stale or partial data.",
  ["inputs", "fault_sequences", "crash_points"],
  "every particle count (including zero), value, precision, ID size and byte order, and every truncation point",
  "There are no Gadget reader tests; precision x ID size x byte order x truncation point cannot be sampled by a few fixtures.",
  ["render/io/io.go"],
  [("block readers", "render/io/io.go:readVecAsByte, readVec64AsByte, readInt64AsByte, readInt32AsByte"), ("header standardisation", "render/io/io.go:Standardize"), ("periodic wrap and unit conversion", "render/io/io.go:ReadGadgetParticlesAt, WrapDistance")],
  ["io.ReadGadget, io.ReadGadgetHeader, io.ReadGadgetParticlesAt results, errors and panics"])

prop("C05", "Rendering conserves mass",
  "Density grids are in units of the mean matter density: the grid of a box covering the whole simulation has mean exactly 1 up to float rounding, in 3D and in projection, wherever its origin lies. This holds for every particle distribution, Threads, SubsampleLength, Particles, TotalPixels/ImagePixels, number of sheet segments and projection axis, and no mass is lost or counted twice at segment or periodic boundaries. Boxes that tile the volume together hold the whole mass up to sampling noise, and every value is finite and non-negative.",
  ["inputs", "configurations", "schedules"],
  "every sheet set whose segments span less than half the box, every render setting and every thread count",
  "No test renders anything; the loss of one tetrahedron, one face or one worker's share is visible only in the total over a whole render.",
  ["render/render.go", "render/box.go", "render/density/interpolator.go", "render/geom/grid.go", "render/main/main.go"],
  [("per-point mass", "render/render.go:ptVal, render/density/interpolator.go:Interpolate"), ("work split over workers and merge", "render/render.go:initWorkspaces, RenderDensityFromFile"), ("segment selection by bounding box", "render/render.go:NewManager, render/geom/grid.go:Intersect"), ("overlap add with periodic shift", "render/box.go:Add")],
  ["payload of .gtet files written by 'main -Render'"])

prop("C06", "Every rendered pixel holds the local phase-sheet density",
  "The value of each pixel of a density grid is, within Monte Carlo error, the mass density obtained by spreading each tetrahedron's mass uniformly over its volume in the periodic simulation (each lattice cube of side SubsampleLength is split into six equal-mass tetrahedra filling it); a pixel no tetrahedron reaches is exactly 0. A projected image pixel is the average of that density along the projection axis over the depth of the image box. This holds for boxes anywhere in the simulation, including across periodic faces, and smaller or larger than the sheet segments.",
  ["inputs", "configurations"],
  "every particle distribution with segments spanning less than half the box, every box position, shape and projection axis, pixel scale, SubsampleLength and Particles",
  "No test renders; correctness needs an independent exact computation of tetrahedron-voxel overlap over many box/segment placements, not a few stored outputs (which are also random).",
  ["render/box.go", "render/render.go", "render/density/interpolator.go", "render/geom/grid.go", "render/geom/tetra.go"],
  [("coordinate scaling to segment or domain frame", "render/geom/grid.go:ScaleVecsSegment, ScaleVecsDomain"), ("pixel deposit", "render/box.go:Interpolate"), ("tetrahedron sampling", "render/geom/tetra.go:DistributeTetra"), ("tetrahedron culling", "render/density/interpolator.go:Interpolate, render/geom/tetra.go:CellBoundsAt")],
  ["payload of .gtet files compared with an exact float64 reference"])

prop("C07", "Boxes rendered together do not influence each other",
  "The grid written for a box depends only on the sheet files, that box and the render settings, up to Monte Carlo sampling: it is the same whether the box is rendered alone or with any other boxes, in any order or spread over any number of bounds files, and however the sheet files are named or ordered. Pixels are the cells of one simulation-wide grid (TotalPixels per side, or ImagePixels over the box's longest side), so boxes rendered at the same scale agree on shared pixels. Every requested box gets exactly one output file.",
  ["inputs", "configurations", "histories"],
  "every set of boxes of mixed size, projection, and per-box pixel scale and particle count, and every order of bounds and sheet files",
  "Untested; leftover worker buffers or counts from one box or file reach the next only for particular size orders, which a single-box example never exercises.",
  ["render/render.go", "render/main/main.go", "render/box.go", "render/io/config.go"],
  [("workspace reuse and clearing", "render/render.go:initWorkspaces"), ("per-box valid segment map", "render/render.go:NewManager"), ("bounds collection", "render/io/config.go:ReadBoundsConfig"), ("pixel scale per box", "render/main/main.go:totalPixels, particles")],
  [".gtet files of multi-box runs compared with the exact reference and with single-box runs"])

prop("C08", "Parallel runs are race-free and independent of the thread count",
  "Rendering and TetraHist runs contain no data race and never deadlock or crash, for every thread count (one, more than the work items, more than the cores) and goroutine schedule. Grids that do not depend on which random points are drawn (whole-box totals, the velocity grid of a uniformly moving sheet, the support of the density) are the same for every thread count.",
  ["schedules", "configurations"],
  "every thread count and interleaving of the worker goroutines, for every quantity and mode",
  "No test starts a worker; a race or lost merge shows only under particular interleavings and thread counts.",
  ["render/render.go", "render/hist.go", "render/density/interpolator.go", "render/density/buffer.go"],
  [("static strided work split", "render/render.go:initWorkspaces, chanInterpolate; render/hist.go:chanHistogram"), ("private workspace per worker", "render/render.go:workspace"), ("channel merge", "render/render.go:RenderDensityFromFile, render/hist.go:HistFromFile")],
  ["race detector reports, exit status and outputs of the CLI built with -race at many thread counts"])

prop("C09", ".gtet files describe exactly what they contain",
  "A .gtet file's header gives its size, byte order and version, the quantity and whether it is a vector grid, the redshift, scale factor, OmegaM, OmegaL, H0, mean and critical density and box width of the simulation, the particles per tetrahedron, total pixels, SubsampleLength and projection axis (-1 for a 3D grid) actually used, the suggested minimum projection depth (20000 / particles * (total pixels / 5000)^3 / SubsampleLength^3, rounded up), and the pixel origin, span and width of the grid in pixels and in simulation units. The payload is exactly the float32 values that header implies (x fastest; three component blocks for vector quantities; the projected axis absent) and the file is named PrependName + box + AppendName + '.gtet'. The Go readers and python/gotetra.py return those same values, a truncated file is refused, and a run whose .gtet file cannot be written completely fails.",
  ["inputs", "configurations", "fault_sequences"],
  "every quantity, box, projection axis, option set (including AutoParticles, ImagePixels and ProjectionDepth) and truncation point",
  "No test reads or writes a .gtet file, and the python readers have no tests.",
  ["render/io/output.go", "render/main/main.go", "python/gotetra.py", "render/density/buffer.go", "render/density/quantity.go"],
  [("header writer", "render/io/output.go:WriteBuffer"), ("render info", "render/io/output.go:NewRenderInfo, render/main/main.go:renderMain"), ("readers", "render/io/output.go:ReadGridHeader, ReadGrid; python/gotetra.py")],
  ["bytes of .gtet files", "io.ReadGridHeader, io.ReadGrid", "python/gotetra.py read_header/read_grid"])

prop("C10", "Bounds files select exactly the requested region or are refused",
  "A Box entry selects the pixels touched by [origin, origin+width] on each axis (never more than the whole simulation) and a Ball entry selects its axis-aligned enclosing box of half-width Radius*RadiusMultiplier, wrapped so the origin lies in [0, width), with the same optional ProjectionAxis; all entries of a file are returned with their names. A non-positive width or radius, a negative multiplier, an origin or centre outside [0, width), an unknown projection axis, or an unparsable file is refused with an error and every such fault is detected on each axis. The example bounds and mode configurations printed by the program are themselves valid with every documented option enabled.",
  ["inputs", "configurations"],
  "every geometry of boxes and balls including the periodic faces, exact-boundary values and every optional field",
  "Untested; boundary values per axis and option combinations are combinatorial.",
  ["render/io/config.go", "render/box.go", "render/main/main.go"],
  [("validation", "render/io/config.go:CheckInit"), ("ball to box", "render/io/config.go:BallConfig.Box"), ("pixel selection", "render/box.go:newBox2D, newBox3D"), ("example text", "render/io/config.go:Example*File")],
  ["io.ReadBoundsConfig results", "pixel origin and span in .gtet headers", "-ExampleConfig output fed back through the parser"])

prop("C11", "Invalid requests are refused cleanly, without output",
  "A run with no mode or several modes, a missing/unreadable config, a missing Input, Output, bounds file, pixel scale or particle count, an unknown Quantity, InputFormat or HistScale, a SubsampleLength that is not a positive power of two (or exceeds the segment width), an ID size other than 32/64, a non-positive Cells or one that does not divide the particles per side, only one of IteratedInput/IteratedOutput, a histogram range or bin count that is not valid, or no boxes at all exits with a non-zero status and an explanatory message and leaves no .gtet, histogram or sheet file behind. Every valid combination of the documented options is accepted and options left out take their documented defaults.",
  ["inputs", "configurations"],
  "every combination of flags and config fields, valid or with one fault",
  "Untested; the faults are spread over three validation layers (flags, config, managers) whose combination no unit test sees.",
  ["render/main/main.go", "render/io/config.go", "render/render.go", "render/hist.go"],
  [("mode selection", "render/main/main.go:getModeName"), ("config validators", "render/io/config.go:Valid*"), ("manager checks", "render/render.go:Subsample, render/hist.go:Subsample")],
  ["exit status, stderr and output directory of CLI runs"])

prop("C12", "TetraHist counts every sample of the region exactly once",
  "For each box TetraHist writes HistBins lines of bin centre and count, bins being equal in value (Linear) or log10 (Log) between HistMin and HistMax; the counts are, within Monte Carlo error, the number of the Particles samples of every tetrahedron of every sheet segment that fall inside the box (periodically) and whose grid-file pixel value lies in the bin. For a box covering the whole simulation and a range covering all grid values the total is exactly 6 * Particles * (particle count / SubsampleLength^3), whatever the thread count, number of segments or periodic wrapping. Boxes in one run do not affect each other.",
  ["inputs", "configurations", "schedules"],
  "every sheet set whose segments span less than half the box, grid file, box position, range, scale, SubsampleLength, Particles and thread count",
  "Untested; exact conservation depends on the strided work split, periodic tetrahedra and per-axis intersection tests together.",
  ["render/hist.go", "render/main/main.go", "render/io/output.go"],
  [("work split", "render/hist.go:chanHistogram"), ("periodic tests", "render/hist.go:intersect1D, contains1D, gridIndex"), ("binning", "render/hist.go:histogram, histCenters"), ("cube culling", "render/hist.go:cubeIntersects")],
  ["histogram text files written by 'main -TetraHist'"])

prop("C13", "Velocity and derivative grids hold the field they name",
  "A Velocity grid (3D or projected) holds in each pixel the mean phase-sheet velocity of the samples in it: exactly 0 where no sample fell, exactly (to rounding) the common velocity of a uniformly moving sheet, always inside the range of the velocities of the tetrahedra reaching the pixel, and linear velocity fields come out as their value at the samples' mean position. VelocityDivergence, VelocityCurl and DensityGradient grids are the fourth-order finite differences, in simulation units and periodic along axes that span the whole simulation, of the corresponding velocity or density field. Every quantity renders for boxes of any size of at least five pixels per axis, and only Density and Velocity are projected.",
  ["inputs", "configurations"],
  "every velocity field, particle distribution, box, pixel scale and quantity",
  "Untested; a wrong component, sign or normalisation is only visible against an analytic field.",
  ["render/density/buffer.go", "render/density/interpolator.go", "render/density/quantity.go", "render/box.go", "render/render.go"],
  [("velocity deposit and count", "render/box.go:Interpolate, Add"), ("finalisation", "render/density/buffer.go:Finalized*"), ("velocity sampling", "render/geom/tetra.go:DistributeTetra64")],
  [".gtet vector payloads; density.Buffer results"])

prop("C14", "Grid derivative operators are exact for polynomials",
  "On any grid of at least Order+1 points per axis, Deriv of order 2 (4) along any axis returns the exact derivative, up to rounding, of polynomials of degree 2 (4) in that axis at every point including the edges, and on a periodic grid spanning the whole box the central difference with wrapped neighbours; Add and Subtract accumulate into the output. Gradient, Divergence and Curl are the corresponding combinations of these derivatives, whole combinations being added or subtracted (curl of a gradient and divergence of a curl vanish, signs follow the right-hand rule). Inputs and options passed in are left unchanged, every output element is written exactly once, and invalid axis, order or too-narrow grids are refused.",
  ["inputs", "configurations"],
  "every grid shape, axis, order, periodicity, operation and field",
  "geom_test.go does not compile and tests no derivative; edges, axes and orders combine into dozens of separately coded stencils.",
  ["render/geom/deriv.go"],
  [("stencils", "render/geom/deriv.go:flat, edge, wrap"), ("edge and wrap loops", "render/geom/deriv.go:edgesDeriv, wrapDeriv"), ("vector operators", "render/geom/deriv.go:Curl, Divergence, Gradient")],
  ["out arrays of GridLocation.Deriv/Gradient/Divergence/Curl"])

prop("C15", "Tetrahedra tile the lattice and are sampled uniformly inside",
  "The six tetrahedra of a lattice cube (for any SubsampleLength) have corners within the cube, share its main diagonal, and together fill it exactly once; centred tetrahedra use only valid lattice sites. Volume, Barycenter, Contains and CellBounds agree with exact geometry, for either orientation and after re-initialisation. Points produced by RandomSample, Distribute and DistributeUnit+DistributeTetra(64) lie inside the tetrahedron (to float rounding) and are uniformly distributed over its volume, with velocities interpolated at the same barycentric position.",
  ["inputs"],
  "every lattice index, skip, tetrahedron shape and orientation, and every random point",
  "geom_test.go does not compile; uniformity and tiling are statements about all points and cubes.",
  ["render/geom/tetra.go"],
  [("direction table", "render/geom/tetra.go:Dirs, TetraIdxs.Init"), ("folding of the unit cube", "render/geom/tetra.go:DistributeUnit, Distribute"), ("barycentric map", "render/geom/tetra.go:DistributeTetra, DistributeTetra64"), ("geometry", "render/geom/tetra.go:Volume, Contains, Barycenter, CellBoundsAt")],
  ["return values of the geom.Tetra and geom.TetraIdxs API"])

prop("C16", "Periodic vectors, cell bounds and grid indexing are consistent",
  "Vector Add, Scale, Dot, Norm and Cross are the usual operations (Cross follows the right-hand rule), Mod returns the representative in [0, width) of a vector within one period, Sub returns the shortest periodic displacement, and Self/At forms equal the plain form even when output and input coincide. CellBounds.Intersect (IntersectUnbounded) is true exactly when two boxes no larger than the period share a cell modulo the period (without it). Grid Idx/Coords/BoundsCheck are mutually inverse over the grid, and sheet CellBounds and ScaleVecs place every particle of a segment inside the segment's own cells.",
  ["inputs"],
  "every vector, box, origin, width and period, including equal widths, touching boxes and coordinates on cell edges",
  "No compiling test covers geom; wrong answers occur only at particular edge alignments.",
  ["render/geom/vec.go", "render/geom/grid.go", "render/io/io.go"],
  [("periodic displacement", "render/geom/vec.go:SubAt, ModAt"), ("interval overlap", "render/geom/grid.go:Intersect, bound"), ("indexing", "render/geom/grid.go:Idx, Coords, BoundsCheck"), ("scaling", "render/geom/grid.go:ScaleVecsSegment, ScaleVecsDomain; render/io/io.go:SheetHeader.CellBounds")],
  ["return values of the geom API compared with brute force"])

prop("C17", "Random generators are in range, reproducible, uniform; Sobol is a net",
  "Every generator type returns values in [0,1), Uniform(a,b) in [a,b) and UniformInt(a,b) in {a..b-1}, all reachable; the stream depends only on type and seed, bulk generation yields exactly the values of repeated single calls, and distinct generators do not affect each other. The streams are statistically uniform and serially uncorrelated. The Sobol sequence stays in [0,1), restarts identically after Init, visits each dyadic interval equally often in every dimension, and its first dimensions match the reference Sobol construction.",
  ["inputs", "histories"],
  "every seed, generator type, range and interleaving of single and bulk calls",
  "rand_test.go holds only benchmarks/plots; range and reproducibility must hold for every seed and draw.",
  ["math/rand/rand.go", "math/rand/xorshift.go", "math/rand/tausworthe.go", "math/rand/golang.go", "math/rand/sobol.go"],
  [("range scaling", "math/rand/rand.go:Uniform, UniformInt, UniformAt"), ("generator state", "math/rand/xorshift.go, tausworthe.go, golang.go"), ("direction numbers", "math/rand/sobol.go:Init, NextAt")],
  ["returned values of the rand API"])

prop("C18", "Sorting and order statistics are exact",
  "Quick and Shell leave any slice sorted ascending and a permutation of its input, and Reverse reverses it, for every length and pattern of duplicates, in place and returning the same slice. NthLargest(xs, n) is the n-th largest element (1-indexed), Median the middle element (the mean-free upper middle for even lengths), and Percentile(xs, p) the order statistic at fraction p with p=0 the minimum and p=1 the maximum, non-decreasing in p. None of the order statistics changes its input, whether or not a buffer is supplied, and empty input or an out-of-range argument is refused.",
  ["inputs"],
  "every slice length, ordering, duplicate pattern, n and p",
  "The tests use random slices of fixed lengths and check few n; adversarial patterns, small lengths and duplicates are not covered.",
  ["math/sort/sort.go", "math/sort/shell.go", "math/sort/quick.go", "math/sort/median.go"],
  [("partition with sentinels", "math/sort/quick.go:partition"), ("gap insertion", "math/sort/shell.go:Shell"), ("quickselect", "math/sort/median.go:nthLargest")],
  ["returned values and contents of input slices"])

prop("C19", "Linear interpolators reproduce their data and stay between neighbours",
  "Linear, BiLinear and TriLinear interpolators, built from explicit (increasing or decreasing) or uniform grids of any sizes, return the tabulated value at every grid point including all outer edges, reproduce (multi)linear functions exactly up to rounding, and elsewhere equal the standard interpolant of the surrounding cell, so results stay within the cell's corner values. EvalAll equals repeated Eval and fills a supplied output, explicit and uniform construction agree, and points outside the table or mismatched table sizes are refused.",
  ["inputs"],
  "every table size and spacing (unequal per axis), direction, and evaluation point including knots and edges",
  "Existing tests only plot splines and kernels; the linear family has no test.",
  ["math/interpolate/linear_interpolators.go", "math/interpolate/search.go"],
  [("cell search", "math/interpolate/search.go:search"), ("interpolants", "math/interpolate/linear_interpolators.go:Eval")],
  ["Eval/EvalAll results compared with an independent interpolant"])

prop("C20", "Splines interpolate, are smooth, and integrate consistently",
  "A Spline through a strictly increasing or decreasing table passes through every point, has continuous first and second derivatives with zero second derivative at the ends, reproduces straight lines, and equals the natural cubic spline; Deriv is the derivative of Eval and Integrate its definite integral (additive, antisymmetric) over any sub-range including both end points. Init on new data equals building afresh. BiCubic and TriCubic equal nested natural splines whatever the order of evaluations, TriDiag solves its system, and out-of-range points, unsorted or mismatched tables are refused.",
  ["inputs", "histories"],
  "every table, spacing, direction, evaluation point, integration range and evaluation order",
  "TestPyplotSpline only draws a plot; nothing is asserted.",
  ["math/interpolate/spline.go", "math/interpolate/cubic_interpolators.go"],
  [("second derivatives", "math/interpolate/spline.go:calcY2s, TriDiagAt"), ("coefficients", "math/interpolate/spline.go:calcCoeffs"), ("integration", "math/interpolate/spline.go:Integrate, integTerm"), ("cached nested splines", "math/interpolate/cubic_interpolators.go:Eval")],
  ["Eval/Deriv/Integrate results compared with an independent natural spline"])

prop("C21", "Smoothing kernels are normalised and convolve by definition",
  "Gaussian, top-hat and Savitzky-Golay kernels sum to 1 and are symmetric, a Savitzky-Golay kernel of order p reproduces polynomials of degree p in the interior, and a derivative kernel returns their derivative of the requested order. Convolve equals the defining sum at every point under each boundary condition: Periodic wraps, Reflection mirrors about the end point (which is not repeated), ZeroPad uses 0 and Extension repeats the end value, identically at both ends. Data are not modified, ConvolveAt equals Convolve, and even widths or invalid orders are refused.",
  ["inputs"],
  "every kernel type, width, order, boundary condition and data length at least the kernel width",
  "TestSavGolKernel checks one kernel's coefficients; boundaries and other kernels are unchecked.",
  ["math/interpolate/filter.go"],
  [("boundary handling", "math/interpolate/filter.go:ConvolveAt, BoundaryCondition.Get"), ("Savitzky-Golay solve", "math/interpolate/filter.go:savgol"), ("normalisation", "math/interpolate/filter.go:normalize")],
  ["Convolve/ConvolveAt/BoundaryCondition.Get results"])

prop("C22", "Matrix algebra satisfies its defining equations",
  "For every well-conditioned matrix, SolveVector/SolveMatrix return x with m*x = b, Invert the two-sided inverse and Determinant the determinant (sign included; zero up to rounding for singular matrices with no zero row), for any pivot order and also when output and input share memory or an LUFactors is reused; Mult, MultVec, VecMult and Transpose follow their definitions for rectangular shapes. The float32 versions satisfy the same equations to float32 accuracy. Inputs are not modified, and incompatible shapes are refused.",
  ["inputs"],
  "every size, permutation structure, sign pattern, rectangular shape and aliasing of arguments",
  "The mat tests do not pass reliably/compile in this environment and use fixed small matrices, which miss particular pivot permutations.",
  ["math/mat/mat.go", "math/mat/mat32.go"],
  [("pivoted LU", "math/mat/mat.go:factorizeInPlace"), ("substitution", "math/mat/mat.go:forwardSubst, backSubst"), ("products", "math/mat/mat.go:MultAt, MultVec, VecMult, TransposeAt")],
  ["returned matrices checked by residuals"])

prop("C23", "Cosmology and halo mass-radius relations hold",
  "HubbleFrac, RhoCritical and RhoAverage satisfy E(0)=1 in a flat model, E^2 = OmegaM(1+z)^3 + OmegaL, critical density proportional to E^2 with today's value 2.775e11 h^2 Msun/Mpc^3 (in /h units, independent of H0), and mean density OmegaM*RhoCritical(0)*(1+z)^3, so rhoMean/rhoCrit is OmegaM(z). Halo radii and masses are exact inverses of each other for every definition, obey M = (4/3) pi Delta rho R^3 in physical radius with the stated overdensity (177.653c, 200c, 500c, 2500c, 200m) and radius in comoving units, and radius names parse case-insensitively and round-trip.",
  ["inputs"],
  "every redshift, OmegaM, OmegaL, H0, mass, radius and overdensity definition",
  "No cosmo or halo test exists (halo does not even build in the stock environment).",
  ["cosmo/param.go", "cosmo/const.go", "render/halo/radius.go"],
  [("expansion rate", "cosmo/param.go:HubbleFrac"), ("densities", "cosmo/param.go:RhoCritical, RhoAverage"), ("overdensity radius", "render/halo/radius.go:Radius, Mass")],
  ["return values of cosmo and halo functions"])

prop("C24", "Numerical differentiation of tables has its stated order",
  "calc.Deriv of order 2 (4) on a uniformly spaced table returns, up to rounding, the exact derivative of any polynomial of degree 2 (4) at every point including both ends, for increasing or decreasing abscissae, offsets and any length of at least order+1; on smooth non-uniform tables it converges to the derivative. It writes to a supplied output slice or allocates one, never modifies its inputs, and refuses unequal lengths and unsupported orders.",
  ["inputs"],
  "every table length, spacing, function and order",
  "There is no test of math/calc.",
  ["math/calc/deriv.go"],
  [("stencils", "math/calc/deriv.go:Deriv"), ("options", "math/calc/deriv.go:Out")],
  ["returned slices"])

prop("C25", "Halo grids and subhalo finding report exactly the overlapping halos",
  "A halo Grid files every object in exactly one cell list, the cell containing its (periodically wrapped) position, so lengths sum to the object count and no index is lost or repeated. SubhaloFinder reports as intersecting exactly the pairs of halos, in whatever order they are given, whose spheres (radius times the multiplier) overlap in the periodic box, each once, symmetrically, with earlier halos (the larger ones of a sorted list) as hosts and later ones as subhalos, however often it is called, and leaves the radii passed in unchanged. SphereBounds covers every cell a sphere touches, each once, and Inside and ConvertIndices agree with it. ReadRockstar returns the requested radius definition with consistent units, masses and radii, halos kept together and sorted by decreasing size; ReadRockstarVals returns requested columns (lengths in Mpc/h, Rad* from the corresponding masses) in file order, identically from the ASCII and the converted binary form, and a top-N conversion keeps the N halos of largest M200b; a missing or truncated catalog or an output that cannot be written is an error.",
  ["inputs"],
  "every halo configuration, cell count, multiplier, position including periodic faces, and radius up to a quarter of the box",
  "render/halo has no tests and is not built by the stock test command.",
  ["render/halo/grid.go", "render/halo/finder.go", "render/halo/io.go"],
  [("linked cell lists", "render/halo/grid.go:Insert, ReadIndexes"), ("periodic sphere bounds", "render/halo/finder.go:SphereBounds"), ("pair marking and cross match", "render/halo/finder.go:markSubhalos, crossMatch"), ("catalog readers", "render/halo/io.go")],
  ["Grid lists and SubhaloFinder results compared with brute force over all pairs", "ReadRockstar, ReadRockstarVals, ReadBinaryRockstarVals results"])

prop("C26", "Failed input or output and crashes never pass for results",
  "If opening, reading, seeking in or writing any file of a ConvertSnapshot, Render or TetraHist request fails at any point (I/O error, too many files, disk full, size limit, whether nothing or part of the data was transferred), the run ends with a non-zero exit status and a message unless every output is complete and right all the same; -ExampleConfig likewise fails if it cannot print. After such a failure, or if the process is killed at any moment, inputs are untouched and every output file left is either exactly what an undisturbed run writes or one its readers refuse as too short (a sheet whose velocities are cut off may still yield its right positions; a histogram has fewer lines than bins). Repeating the request then succeeds and writes everything anew.",
  ["crash_points", "fault_sequences"],
  "every system call on every file of a request, failing or being the last before a kill; every time of a kill; every size limit",
  "No test runs the program, let alone with failing devices.",
  ["render/main/main.go", "render/io/io.go", "render/io/output.go"],
  [("sheet writer and readers", "render/io/io.go:WriteSheet, ReadSheetHeaderAt, ReadSheetPositionsAt, ReadSheetVelocitiesAt"), ("snapshot reader", "render/io/io.go:ReadGadgetParticlesAt"), ("grid writer and reader", "render/io/output.go:WriteBuffer, ReadGrid"), ("output loops", "render/main/main.go:renderMain, tetraHistMain, writeGrids")],
  ["exit status, message, input and output files of requests run under an injected fault, and of the same request afterwards"])

prop("C27", "Runs of any size hold few files open and leave nothing behind",
  "The number of files a request holds open does not grow with the number of boxes, bounds files, sheet segments, snapshot files or iterated snapshots: requests over any number of them succeed, with right output, in an environment that allows 20 open files. Library calls (sheet, Gadget, grid, bounds and Rockstar readers and writers) close every file they open before they return, also when they refuse the file, and rendering and histogram managers leave no goroutine running and no file open once they return, however many are run one after another in a process and whatever thread count; a HistManager asked again gives the full counts again.",
  ["histories", "inputs"],
  "every number of boxes, segments, files and calls, in any order, on good and damaged files",
  "Leaks only show over many calls or under resource limits, which no test sets.",
  ["render/main/main.go", "render/io/io.go", "render/io/output.go", "render/halo/io.go", "render/render.go", "render/hist.go"],
  [("output loops", "render/main/main.go:renderMain, tetraHistMain"), ("sheet files", "render/io/io.go:readSheetHeaderAt, WriteSheet"), ("catalogs", "render/halo/io.go:binaryColGetter"), ("workers", "render/render.go:RenderDensityFromFile; render/hist.go:HistFromFile")],
  ["success and output of requests under RLIMIT_NOFILE", "open descriptors and goroutines of a process before and after histories of calls"])

prop("C28", "Library calls on separate outputs may be made at the same time",
  "Any number of goroutines may call the library at once, each with its own outputs and state, while they only read inputs in common: grid derivative operators with shared fields and shared (or default) options, shared linear interpolators, splines and kernels, shared matrices and LU factorisations, order statistics of shared data, sorts of separate slices, separate random generators and Sobol sequences, cosmology and halo relations, a shared halo grid with separate subhalo finders, separate tetrahedra and vectors, readers of the same sheet, Gadget, grid, bounds or Rockstar files, writers of separate files, and separate rendering and histogram managers over the same sheets. No data race occurs, and every call returns exactly what it returns when made alone (BiCubic and TriCubic interpolators and Tetra values, which keep caches, belong to one goroutine each).",
  ["schedules", "inputs"],
  "every combination of calls, number of goroutines and schedule",
  "All tests make one call at a time.",
  ["render/geom/deriv.go", "math/interpolate", "math/mat", "math/sort", "math/rand", "math/calc", "cosmo", "render/halo", "render/io", "render/render.go", "render/hist.go"],
  [("options copied, not changed and reverted, for thread safety", "render/geom/deriv.go:Curl, Divergence"), ("stateless evaluation", "math/interpolate/linear_interpolators.go:Eval; math/interpolate/spline.go:Eval, Deriv, Integrate"), ("buffers per call", "math/sort/median.go:NthLargest; math/mat/mat.go:SolveMatrix"), ("state per generator", "math/rand/rand.go:New"), ("readers", "render/io/io.go; render/io/output.go; render/halo/io.go")],
  ["race reports of an instrumented process in which many goroutines call at once; results compared bit for bit with those of the same calls made alone"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")

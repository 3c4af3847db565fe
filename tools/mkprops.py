"""Writes properties.jsonl (kept as a script so that the entries stay easy to
edit; run it after a change)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": ["soil_simulator/" + f for f in files],
                          "state": [dict(name=a, meaning=b, where="soil_simulator/" + c)
                                    for a, b, c in state],
                          "mechanism": [dict(name=a, where="soil_simulator/" + b)
                                        for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})


ALL = ["soil_dynamics.cpp", "body_pos.cpp", "body_soil.cpp",
       "intersecting_cells.cpp", "relax.cpp"]
WORLD = [("terrain_", "height of the ground, per column", "types.hpp"),
         ("body_", "bottom and top of the (at most two) tool walls of a column", "types.hpp"),
         ("body_soil_", "bottom and top of the soil resting on each wall", "types.hpp"),
         ("body_soil_pos_", "list of the carried parcels", "types.hpp")]
OPS = ["SimOut after Step", "SimOut after UpdateBodySoil",
       "SimOut after MoveIntersectingCells",
       "SimOut after RelaxTerrain / RelaxBodySoil"]

prop("C01", "Soil is neither created nor destroyed",
     "Relocating the carried soil after a tool move, displacing soil hit by the tool, a pass of ground avalanches, a pass of carried-soil avalanches and a whole simulation step each leave the total amount of soil (ground plus carried soil) exactly unchanged, counted in whole cells. The only soil that may disappear is carried soil crushed between two tool walls for which no place is left in any of the eight directions, and then a warning is logged.",
     ["inputs", "histories", "schedules"],
     "All well-formed worlds inside the grid, tool shapes and trajectories, grid resolutions, and all random orders of columns, parcels and directions.",
     "The unit tests check hand-made configurations of a few columns and the volume after a handful of them; they never follow a sequence of steps and fix one random seed.",
     ALL,
     [("UpdateBodySoil", "body_soil.cpp"), ("MoveBodySoil", "intersecting_cells.cpp"),
      ("MoveIntersectingBody", "intersecting_cells.cpp"),
      ("RelaxUnstableTerrainCell", "relax.cpp"), ("RelaxUnstableBodyCell", "relax.cpp")],
     OPS, WORLD)

prop("C02", "The list of carried parcels matches the carried soil",
     "After every operation that moves soil or the tool, the carried parcels account exactly for the carried soil: for every column and every wall, the thicknesses of the parcels registered there add up to the thickness of the soil resting on that wall. No parcel of positive thickness is registered where there is no carried soil, and no parcel has a negative or fractional (in cells) thickness.",
     ["inputs", "histories", "schedules"],
     "All well-formed worlds, trajectories and random orders, after each phase and each step.",
     "Tests compare the list for a few single operations; a parcel that is not split, not removed or registered on the wrong wall only shows after several operations.",
     ALL,
     [("UpdateBodySoil", "body_soil.cpp"), ("MoveIntersectingBodySoil", "intersecting_cells.cpp"),
      ("RelaxUnstableBodyCell", "relax.cpp"), ("RelaxBodySoil", "relax.cpp")],
     OPS, WORLD)

prop("C03", "Ground, tool walls and carried soil never overlap",
     "After every simulation step the columns are consistent: the ground does not rise above the bottom of a tool wall, carried soil lies on the top of its own wall and has a positive thickness, it does not reach into the wall above it, and the two walls of a column are proper intervals separated by a gap. Every avalanche pass keeps these facts, and displacing the soil hit by the tool restores them whatever the tool ran into.",
     ["inputs", "histories", "schedules"],
     "All steps of all trajectories; all well-formed worlds before an avalanche pass; all worlds with squeezed carried soil or buried walls before a displacement.",
     "The tests assert chosen cells in chosen configurations; overlap arises from combinations of two walls, partially filled gaps and treatment order that are not enumerated there.",
     ALL,
     [("MoveIntersectingCells", "intersecting_cells.cpp"),
      ("RelaxUnstableTerrainCell", "relax.cpp"), ("RelaxUnstableBodyCell", "relax.cpp"),
      ("IncludeNewBodyPos", "body_pos.cpp")],
     OPS, WORLD)

prop("C04", "Ground avalanches follow the repose angle",
     "In a pass of ground avalanches, each column of the active region that is higher than a side-by-side column by more than the repose limit gives that neighbour half of the difference (rounded so that the pair ends at the limit or just below); soil goes under a tool wall while there is room below it, never more than fits, otherwise onto the lowest wall with room above it, where it becomes carried soil. Nothing else changes: each result is explained by treating every too-steep column once, in some order of columns and of its four directions.",
     ["inputs", "schedules", "configurations"],
     "All arrangements of ground, zero to two walls and carried soil on the two columns of a pair (heights up to a bound) and random worlds of several interacting columns; all repose limits and all random orders.",
     "The unit tests exercise about thirty pair configurations with one limit, one cell size and a fixed seed; the combinations of limit, room, offset and slot are unbounded.",
     ["relax.cpp"],
     [("LocateUnstableTerrainCell", "relax.cpp"), ("CheckUnstableTerrainCell", "relax.cpp"),
      ("RelaxUnstableTerrainCell", "relax.cpp"), ("RelaxTerrain", "relax.cpp")],
     ["SimOut after RelaxTerrain"], WORLD)

prop("C05", "Carried soil avalanches follow the repose angle",
     "In a pass of carried-soil avalanches, each parcel whose soil stands higher than a side-by-side column by more than the repose limit gives that neighbour half of the difference, but never more than the parcel holds nor more than fits; it lands on the ground if there is no wall or if it passes below the neighbour's wall, otherwise on the wall it can reach that still has room. Nothing else changes: each result is explained by treating every parcel once, in some order of parcels and of the four directions.",
     ["inputs", "schedules", "configurations"],
     "All arrangements of the two columns of a pair up to a height bound, random worlds of several parcels and columns, all repose limits and random orders.",
     "The unit tests exercise fixed pairs with one limit and one cell size; which wall is reachable, how much fits and how parcels split depends on unbounded combinations.",
     ["relax.cpp"],
     [("CheckUnstableBodyCell", "relax.cpp"), ("RelaxUnstableBodyCell", "relax.cpp"),
      ("RelaxBodySoil", "relax.cpp")],
     ["SimOut after RelaxBodySoil"], WORLD)

prop("C06", "Equilibrium is reported exactly when nothing is too steep any more",
     "A step runs avalanche passes until one of them finds nothing too steep, and never more than the configured maximum number of passes. It publishes the equilibrium flag exactly if that last pass found neither ground in the active region nor carried soil standing too high above a side-by-side column; with enough passes and a repose limit of at least one cell, terrain out of reach of the tool always gets there.",
     ["inputs", "schedules", "histories"],
     "All worlds and trajectories, all limits on the number of passes (including zero), all random orders.",
     "Tests check the flag after a single pass on prepared columns; no test bounds the number of passes of a step or checks that a reported equilibrium is one.",
     ["soil_dynamics.cpp", "relax.cpp"],
     [("Step", "soil_dynamics.cpp"), ("RelaxTerrain", "relax.cpp"), ("RelaxBodySoil", "relax.cpp")],
     ["SimOut::equilibrium_ after Step"],
     [("equilibrium_", "published equilibrium flag", "types.hpp")])

prop("C07", "Ground hit by the tool is pushed to the nearest columns with room",
     "When a tool wall is inside the ground, the ground of that column is lowered exactly to the bottom of its lowest wall and all of the excess is put on the ground of the surrounding columns, ring by ring outwards in the eight directions, filling columns without a wall freely and columns under a wall only up to the bottom of the lowest wall there. A ring is used only when the nearer ones have no direction with room left, and carried soil and walls are not touched.",
     ["inputs", "schedules"],
     "All worlds with any number of buried walls (one or two per column, any depth) in the active region, and all random orders of directions.",
     "Tests use single buried columns with at most two rings and a fixed order of directions.",
     ["intersecting_cells.cpp"],
     [("LocateIntersectingCells", "intersecting_cells.cpp"), ("MoveIntersectingBody", "intersecting_cells.cpp")],
     ["SimOut after MoveIntersectingBody / MoveIntersectingCells"], WORLD)

prop("C08", "Carried soil hit by a wall moves to a reachable place",
     "Carried soil that reaches into the wall above it is cut exactly down to that wall, parcel by parcel, and the removed part is moved along one of the eight directions: onto the ground of a column without a wall or with a wall to slide under, onto a lower wall, into the gap between two walls as far as there is room (the rest continuing beyond it), and never through a wall that is as high as the ceiling it passes under. Carried soil that is not squeezed and the ground of other columns are left alone.",
     ["inputs", "schedules"],
     "All worlds with squeezed carried soil, one or two walls in the columns around, all random orders of directions.",
     "Tests cover single squeezed columns with prepared neighbours; chains over several columns with partially filled gaps, blocked directions and several parcels are not enumerated.",
     ["intersecting_cells.cpp"],
     [("MoveIntersectingBodySoil", "intersecting_cells.cpp"), ("MoveBodySoil", "intersecting_cells.cpp")],
     ["SimOut after MoveIntersectingBodySoil / MoveIntersectingCells"], WORLD)

prop("C09", "Carried soil follows the tool",
     "When the tool takes a new pose, every carried parcel of at least one cell is moved to the place its anchor in the frame of the tool takes in the new pose: it lands, with its whole thickness, on a wall of that column or of one of the eight columns around whose top is within one cell height of it, taken in the order given by the direction of the movement, or on the vertically closest of those walls if none is that near (the first in that order of equally high ones); only if there is no wall at all does it fall to the ground there, with a warning. The anchor is kept when a parcel is relocated, and a parcel created by an avalanche or a displacement is anchored, in the frame of the current tool pose, at the top of the wall it lies on in its column.",
     ["inputs", "histories"],
     "All poses (translations and rotations), all sets of parcels, all arrangements of walls around the new place; all parcels created by the other operations.",
     "Tests relocate a few parcels with axis-aligned poses and one wall layout, and never check the anchor after several moves under rotation.",
     ["body_soil.cpp", "utils.cpp", "intersecting_cells.cpp", "relax.cpp"],
     [("UpdateBodySoil", "body_soil.cpp"), ("CalcBodyFramePos", "utils.cpp"),
      ("CalcRotationQuaternion", "utils.cpp")],
     ["SimOut after UpdateBodySoil", "body_soil_pos_ entries after relaxation and displacement"], WORLD)

prop("C10", "The tool's walls cover exactly where the tool is",
     "After the tool has been placed at a pose, a column contains a wall exactly if one of the tool's surfaces passes through it, and at each such column every surface is enclosed by a wall interval that reaches no further than the cell layer containing the surface's lowest point in the column to the one containing its highest point (apart from the merging of intervals of one column). This holds for buckets and blades at every pose and for the surfaces degenerating to lines.",
     ["inputs", "configurations"],
     "All tool shapes, positions and orientations inside the grid and all grid resolutions, up to surfaces within numerical tolerance of a cell border.",
     "The unit tests compare a few poses, mostly axis-aligned, against hard-coded lists of cells.",
     ["body_pos.cpp"],
     [("CalcRectanglePos", "body_pos.cpp"), ("CalcTrianglePos", "body_pos.cpp"),
      ("CalcLinePos", "body_pos.cpp"), ("DecomposeVectorRectangle", "body_pos.cpp"),
      ("DecomposeVectorTriangle", "body_pos.cpp"), ("UpdateBody", "body_pos.cpp")],
     ["SimOut::body_ after CalcBodyPos", "CalcRectanglePos / CalcTrianglePos / CalcLinePos results"])

prop("C11", "A column keeps at most two disjoint wall intervals",
     "Adding a wall interval to a column merges it with every stored interval it touches or overlaps, leaves the column unchanged if it is already covered, takes a free slot if there is one, and with both slots taken by disjoint intervals extends the nearer one (by vertical gap) just enough to include it. Intervals are entered surface by surface as one interval from the bottom of the lowest to the top of the highest cell of a column, and placing the tool removes all walls of its previous pose.",
     ["inputs", "histories"],
     "All sequences of wall intervals in a column, all sequences of surfaces and of tool poses.",
     "Tests insert one interval into prepared columns; the outcome depends on the whole sequence of insertions and on what the previous pose left behind.",
     ["body_pos.cpp"],
     [("IncludeNewBodyPos", "body_pos.cpp"), ("UpdateBody", "body_pos.cpp"), ("CalcBodyPos", "body_pos.cpp")],
     ["SimOut::body_ after IncludeNewBodyPos / UpdateBody / CalcBodyPos"])

prop("C12", "Active regions bound what a step looks at and changes",
     "The tool region is the horizontal bounding box of the tool widened by the configured number of cells and clamped to the grid interior; each avalanche pass works in the smallest box enclosing the tool region and the region of the previous pass, whose new value is the box of the potentially unstable columns widened by the same margin and clamped (unchanged if there are none). An avalanche pass changes only columns of its region and their side-by-side neighbours and the columns around carried parcels, and displacement is started only by walls in the tool region and by carried parcels.",
     ["inputs", "histories"],
     "All tool poses, margins, terrains and histories of steps, up to coordinates within rounding tolerance of a half cell.",
     "Tests check the boxes for a few poses far from the border; that soil outside is never touched, and that the boxes follow the history of steps, is not tested.",
     ["body_pos.cpp", "relax.cpp", "soil_dynamics.cpp", "intersecting_cells.cpp"],
     [("CalcBodyPos", "body_pos.cpp"), ("RelaxTerrain", "relax.cpp"), ("Step", "soil_dynamics.cpp"),
      ("LocateUnstableTerrainCell", "relax.cpp"), ("LocateIntersectingCells", "intersecting_cells.cpp")],
     ["SimOut::body_area_, relax_area_, impact_area_", "columns changed by an operation"],
     [("body_area_", "region of the tool", "types.hpp"), ("relax_area_", "region of the last avalanches", "types.hpp"),
      ("impact_area_", "region of the current pass", "types.hpp")])

prop("C13", "Small tool moves are skipped, large ones are reported",
     "A step returns false and changes nothing at all, neither the soil nor the stored tool pose, exactly if no corner of the tool would move by at least half the smallest cell dimension since the last executed step; otherwise, and always at the first request, it returns true and the tool has the new pose. A warning about the size of the movement is logged exactly if a corner moves by more than twice the smallest cell dimension; movement accumulated over skipped requests counts, since it is measured from the last executed pose.",
     ["inputs", "histories"],
     "All sequences of requested poses (translations and rotations), tool shapes and grid resolutions, up to numerical tolerance at the two thresholds.",
     "Tests check the predicate alone for some displacements; that a skipped step leaves everything unchanged and that skipped movement accumulates is a property of histories.",
     ["utils.cpp", "soil_dynamics.cpp"],
     [("CheckBodyMovement", "utils.cpp"), ("Step", "soil_dynamics.cpp"), ("UpdateBodySoil", "body_soil.cpp")],
     ["return value of Step", "logged warnings", "SimOut and tool pose"])

prop("C14", "The built-in checkers accept exactly the consistent states",
     "The volume check succeeds exactly if the parcels add up to the carried soil of every column and wall and the total amount of soil equals the given initial amount; the consistency check succeeds exactly if, over the tool region, ground lies below walls, walls are proper and disjoint, and carried soil rests on its own wall without touching into another wall. Each logs a warning exactly when it fails, neither modifies the state, and the combined check runs both.",
     ["inputs"],
     "All states, consistent or corrupted in any way, and all claimed initial amounts.",
     "Tests corrupt one value at a time in a few places; a checker that misses a class of corruption silently hides simulator defects.",
     ["utils.cpp", "soil_dynamics.cpp"],
     [("CheckVolume", "utils.cpp"), ("CheckSoil", "utils.cpp"), ("Check", "soil_dynamics.cpp")],
     ["return values and logged warnings of CheckVolume / CheckSoil / Check"])

prop("C15", "Output files are complete, faithful and never overwritten",
     "Each output request writes the ground height of every column, one row at the top of the carried soil for every wall that carries soil (a single dummy row if there is none), and the outline of the tool in its current pose, with coordinates matching the simulated state. Files are numbered with the first free number of their series (of the 100000 five-digit numbers), where the ground and carried-soil files of one request share a number, the first one that is free for both; so earlier files are never modified. Every file starts with a header row.",
     ["histories", "inputs"],
     "All states and all sequences of output requests, including folders that already hold output of earlier runs.",
     "Tests only write once or compare a few rows; numbering over histories and completeness over arbitrary states are not tested.",
     ["utils.cpp", "soil_dynamics.cpp"],
     [("WriteSoil", "utils.cpp"), ("WriteBody", "utils.cpp"), ("WriteOutputs", "soil_dynamics.cpp")],
     ["files in the results folder"])

prop("C16", "The initial terrain is bounded, smooth, seeded and covers the grid",
     "Initialisation sets the ground of every column to a whole number of cell heights, bounded by the noise amplitude, and changes nothing else; with amplitude zero the ground is flat at height zero. The height of a column is the amplitude times four octaves of simplex noise (frequencies 1, 2, 4 and 8 with weights 1/2, 1/4, 1/8 and 1/16) at the position of the column relative to the extent of the grid, rounded to cells; the noise is the standard two-dimensional simplex noise over a permutation of 0..255 that the seeded generator shuffles. So the terrain is a function of the seed, the grid and the amplitude only: the same seed gives the same terrain, different seeds give different ones, and neighbouring columns differ by no more than the noise gradient allows.",
     ["inputs", "configurations"],
     "All seeds, grids and amplitudes.",
     "Tests compare one seed and one grid with recorded values.",
     ["soil_dynamics.cpp", "utils.cpp"],
     [("Init", "soil_dynamics.cpp"), ("simplex_noise", "utils.cpp")],
     ["SimOut::terrain_ after Init"])

prop("C17", "A run is a function of its inputs and seed",
     "Given the same seed and the same sequence of calls with the same arguments, the simulator produces bit-identical states, whatever other simulations were run before or in between in the same process. Reads such as checks, output requests and skipped steps do not influence the later evolution, and objects passed by value or used by another world are never modified.",
     ["histories", "schedules"],
     "All call sequences, and all interleavings of independent worlds in one process.",
     "Each unit test runs one world once; hidden state shared between runs cannot show.",
     ALL + ["utils.cpp", "types.cpp"],
     [("rng", "types.hpp"), ("Step", "soil_dynamics.cpp"), ("Init", "soil_dynamics.cpp")],
     ["complete state after each call"])

prop("C18", "Tool poses are rigid motions",
     "The corners of the tool at a pose are the reference corners rotated by the given orientation about the tool's origin and translated by the given position: distances and angles between corners are preserved, the identity pose gives the reference corners, and rotations compose. Converting a column and height to the frame of the tool is the exact inverse of placing that point with the tool's pose, and converting Euler angles to an orientation gives the unit quaternion of the yaw-pitch-roll rotation.",
     ["inputs"],
     "All tool shapes, positions, orientations (normalised or not for the rotation itself) and Euler angles, up to floating-point rounding.",
     "Tests evaluate a few fixed rotations; sign or order errors that vanish on symmetric or axis-aligned cases escape.",
     ["utils.cpp"],
     [("CalcRotationQuaternion", "utils.cpp"), ("MultiplyQuaternion", "utils.cpp"),
      ("AngleToQuat", "utils.cpp"), ("CalcBodyCornerPos", "utils.cpp"), ("CalcBodyFramePos", "utils.cpp"),
      ("CalcNormal", "utils.cpp")],
     ["return values of the pose functions"])

prop("C19", "Invalid configurations are rejected and valid ones built faithfully",
     "Grids with non-positive dimensions or cells, or with cells larger than the extent of the grid or higher than wide, tools with malformed or coincident reference points or non-positive width, and parameters with an out-of-range repose angle, a negative number of passes or a margin below two cells are rejected with an invalid-argument error; everything else is accepted. An accepted grid has the documented number of columns (the half extent divided by the cell size, rounded, on either side of the middle column) spaced by the cell size and centred on the origin, also when the extent is no whole number of cells; an accepted world starts empty and flat, and an accepted tool stores its geometry relative to its origin.",
     ["configurations", "inputs"],
     "All argument tuples, including boundary values.",
     "Tests try single invalid values one at a time and two valid ones; combinations, boundary values and other sizes are not covered.",
     ["types.cpp", "types.hpp"],
     [("Grid", "types.cpp"), ("SimOut", "types.hpp"), ("SimParam", "types.cpp"),
      ("Bucket", "types.cpp"), ("Blade", "types.cpp")],
     ["constructor outcome and public members"])

prop("C20", "All heights stay on the cell lattice",
     "Ground heights, tool walls, carried soil and parcel thicknesses are, after any number of steps, whole multiples of the cell height up to floating-point noise that does not accumulate. Tool walls are so at every pose.",
     ["histories", "inputs"],
     "All histories of steps, grid resolutions, repose angles and poses.",
     "Drift only shows over long histories with cell sizes that are not exactly representable; tests perform single operations.",
     ALL,
     [("RelaxUnstableTerrainCell", "relax.cpp"), ("RelaxUnstableBodyCell", "relax.cpp"),
      ("UpdateBodySoil", "body_soil.cpp"), ("UpdateBody", "body_pos.cpp"), ("Init", "soil_dynamics.cpp")],
     OPS, WORLD)

prop("C21", "A step places the tool, carries, displaces, then settles the soil",
     "An executed step is exactly this sequence: place the tool at the new pose, move the carried soil along, displace the soil the tool ran into, then repeat {update the active region, one pass of ground avalanches, one pass of carried-soil avalanches} until equilibrium or the maximum number of passes. Every resulting state is explained by some random order of that sequence, with no phase skipped, repeated or reordered.",
     ["histories", "schedules", "inputs"],
     "All histories of steps with both tool types, all limits on the number of passes and all random orders.",
     "No unit test calls the step function with soil and a tool; its composition is only exercised by the example program, whose output is not checked.",
     ["soil_dynamics.cpp"],
     [("Step", "soil_dynamics.cpp"), ("MoveIntersectingCells", "intersecting_cells.cpp")],
     ["SimOut after Step"], WORLD)

prop("C22", "Random choices are fair to every direction",
     "Where several directions or orders are possible, every one of them occurs: over the seeds, ground and carried-soil avalanches, the displacement of ground and the displacement of carried soil produce every outcome that some order of treatment can produce, so that no direction is structurally preferred.",
     ["schedules", "inputs"],
     "All orders of directions (and of carried parcels) in small symmetric and asymmetric worlds; all seeds.",
     "Tests fix the seed and assert the one outcome it gives; a broken shuffle that always starts with one direction passes them when that outcome is kept.",
     ["relax.cpp", "intersecting_cells.cpp", "soil_dynamics.cpp"],
     [("RelaxTerrain", "relax.cpp"), ("RelaxBodySoil", "relax.cpp"),
      ("MoveIntersectingBody", "intersecting_cells.cpp"), ("MoveIntersectingBodySoil", "intersecting_cells.cpp")],
     ["set of states reached over many seeds"])

prop("N01", "No memory error or undefined behaviour",
     "No sequence of calls with valid arguments and a tool inside the grid reads or writes outside the simulated arrays or otherwise has undefined behaviour.",
     ["inputs", "histories"], "All valid calls with the tool inside the grid.",
     "Tests run without sanitizers and stay in the middle of small grids.", ALL,
     [("array accesses", "relax.cpp")], ["process state"])
prop("N02", "A step runs in real time",
     "A simulation step on the documented grid sizes completes within the real-time budget the project advertises.",
     ["inputs", "configurations"], "All worlds of the documented size.",
     "The benchmarks report times but assert nothing.", ["soil_dynamics.cpp"],
     [("active regions", "soil_dynamics.cpp")], ["wall-clock time"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

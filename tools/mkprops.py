"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = "pyslope/pyslope.py"; U = "pyslope/utilities.py"; D = "pyslope/data_validation.py"; V = "slope/views.py"
props = []
def add(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

add("G01","Section geometry matches the requested slope",
 "For every accepted height and angle or length (length winning when both are given), the modelled section has its crest exactly the height above and the length (height divided by the tangent of the angle, never less than 0.001 m) to the left of its toe, as one closed outline whose crest and toe platforms are equally long. The section is never shorter or lower than the minimum extents in force, is at least 5 slope lengths and 4 heights long and at least 3 heights and 2.5 lengths high, always reaches the deepest stratum, and equals the largest of those bounds. Later changes of the minimum extents keep height and length unchanged.",
 ["inputs"],"every real height, length, angle in (0,90] and minimum extents within stated ranges",
 "tests build about ten fixed slopes and never look at the outline",[P],
 [("Slope.set_external_boundary",P),("Slope.update_boundary_options",P)],["get_top_coordinates/get_bottom_coordinates","plot_boundary outline"])
add("G02","Ground surface lookups agree with the section",
 "For every slope and every x in the section, the ground level returned is the crest level over the crest platform, the toe level over the toe platform, and on the face drops linearly from crest to toe; outside the section no level is returned. For every level y, the surface position returned is the point of the face at that level between toe and crest (inclusive), the far end of the section when y is below the toe, and nothing when y is above the crest.",
 ["inputs"],"every slope geometry and every real x, y","only exercised indirectly with a handful of numbers",[P],
 [("Slope.get_external_y_intersection",P),("Slope.get_external_x_intersection",P)],["return values"])
add("G03","Circle entry and exit points are real ground crossings",
 "For every slope and circle (crossings more than 1 mm away from the ends of the section and from crest and toe), each crossing point the model works with lies both on the circle and on the ground surface inside the section, and points are ordered left to right and more than 1 cm apart. A circle that dips from the crest platform into the ground and comes out once on the face, or once on the toe platform, is accepted as a failure plane with exactly those two end points; a circle that meets the ground fewer than twice is never analysed.",
 ["inputs"],"every slope geometry and circle (centre, radius) within stated ranges",
 "existing tests use a dozen hand picked circles and never compare end points",[P,U],
 [("Slope._get_circle_external_intersection",P),("cirle_line_intersection",U),("Slope.add_single_circular_plane",P)],["l_c/r_c of analysed planes","get_min_FOS_end_points"])
add("G04","Entry/exit planes pass through the requested points",
 "For every entry point on the crest platform and exit point further right on the ground, the failure planes generated for that pair are circles through both points, with centre to the right of the entry point and no lower than it, from the steepest (radius 1.1 times the vertical-tangent radius) to flatter ones as the sag shrinks in equal steps. At most the requested number of planes is generated, and a plane's recorded end points are the circle's leftmost two ground crossings.",
 ["inputs"],"every slope geometry, entry point, exit point and number of circles within stated ranges",
 "tests only run the default search and look at the minimum FOS",[P,U],
 [("Slope._generate_planes",P),("Slope.add_single_entry_exit_plane",P),("circle_radius_from_abcd, circle_centre, mid_coord",U)],["c_x, c_y, radius, l_c, r_c of generated planes"])
add("S01","Analysis limits stay ordered and inside the section",
 "After any accepted combination of limit arguments the limits in force satisfy 0 <= left < left-inner <= crest <= right-inner < right <= section length; omitted limits keep their current value, given ones are applied after clamping to the section. A combination that cannot be ordered, a negative value, or 0 for any limit but the left one is rejected with ValueError, and any subset of the four limits may be given on its own.",
 ["inputs","histories"],"every subset of limits with arbitrary real values on arbitrary slopes, from an arbitrary valid previous state",
 "tests set one in-range combination",[P],[("Slope.set_analysis_limits",P),("Slope.remove_analysis_limits",P)],["limits used by the search","limit markers in plot_boundary"])
add("S02","The search only returns planes within the analysis limits",
 "Every failure plane produced by the automatic search enters the ground between the two left limits and leaves it between the two right limits (to within rounding), whatever loads are on the slope, and its end points are further apart than the minimum failure distance. This also holds for the planes tried next to the edges of loads. Assigning a load that makes the section longer puts the limits back to the whole section.",
 ["inputs","configurations"],"every set of limits, load positions and minimum failure distance within stated bounds",
 "tests set limits but never compare resulting planes with them",[P],[("Slope._set_entry_exit_planes",P)],["l_c and r_c of planes in the search result"])
add("S03","The search covers the limits with the requested effort",
 "For every iteration setting the automatic search tries entry points that start at the outer left limit and end at the inner left limit, and exit points that end at the outer right limit, evenly spaced, with at least 5 circles (one more for every 800 iterations above 4000) per pair, so that without loads at least the requested number of circles is tried. With loads, a point 1 mm left of every line load and of the left edge of every uniform load inside the limits is tried too. Any number of loads can be assigned without the search failing.",
 ["inputs","configurations"],"every iteration count in 500..100000, limits and number of loads within stated bounds",
 "tests check only that 800..1200 planes result for iterations=1000",[P],[("Slope._set_entry_exit_planes",P)],["entry/exit pairs tried by the search"])
add("L01","Loads sit at their offset behind the crest",
 "Whatever sequence of load and section changes is made, every assigned uniform load extends from (crest x - offset - length) to (crest x - offset), or from the left end of the section when it is continuous (a load reaching beyond the left end is cut off there), and every line load sits at crest x - offset. Assigning a load extends the section when needed so that the whole load lies on the crest platform; only loads with non-zero magnitude are kept.",
 ["inputs","histories"],"every offset, length and sequence of model changes within stated bounds",
 "tests use loads that fit the default section",[P],
 [("Slope.set_udls",P),("Slope.set_lls",P),("Slope._update_udl_coordinates",P),("Slope._update_ll_coordinates",P)],["load glyph positions in plot_boundary","FOS"])
add("L02","Uniform loads weigh on slices by their overlap",
 "For every failure plane, a uniform load adds to each slice its pressure times the length over which load and slice overlap, and nothing else, so that the reported factor of safety is the one of Bishop's method with exactly that extra weight; several loads add up. Load parts beyond the plane's entry point have no effect.",
 ["inputs"],"every load position, length and pressure within stated ranges, for representative planes",
 "one UDL position is compared with reference software",[P],[("UDL loop in Slope._analyse_circular_failure_bishop / _ordinary",P)],["FOS of analysed planes"])
add("L03","A line load acts on exactly one slice",
 "For every failure plane and every position of a line load between the plane's entry and exit points, the load adds its full magnitude to exactly one slice, the one containing its position: it is never lost or counted twice, including at slice borders. A line load outside the plane has no effect, and several line loads add up.",
 ["inputs"],"every load position (including slice borders) and magnitude, for representative planes and slice counts",
 "one line load position is compared with reference software",[P],[("LL loop in Slope._analyse_circular_failure_bishop / _ordinary",P)],["FOS of analysed planes"])
add("L04","Removing loads removes exactly the matching loads",
 "Removing a uniform load (or a line load) removes every assigned load with the same offset, magnitude and (for uniform loads) length, and no other; remove_all removes all of that kind. The model afterwards behaves as if only the remaining loads had been assigned (the section keeps its size), including in plots, and removing something that is not assigned changes nothing.",
 ["inputs","histories"],"every multiset of up to 3 loads with arbitrary values and every removal request",
 "tests remove one load and only re-add it",[P],[("Slope.remove_udls",P),("Slope.remove_lls",P)],["loads drawn by plot_boundary","FOS"])
add("M01","Strata are kept in depth order at the right level",
 "Whatever the order in which materials and section changes are made, strata are ordered by depth, each stratum's bottom is its depth below the crest, and the section always reaches at least to the deepest stratum. Two strata of equal depth are rejected with ValueError, also when added in separate calls.",
 ["inputs","histories"],"every set of up to 4 depths in every call order, combined with section changes",
 "tests add 2 to 4 materials once, in order",[P],[("Slope.set_materials",P),("Slope.set_external_boundary",P)],["strata drawn by plot_boundary","FOS"])
add("M02","Soil weight is the sum of the strata cut by each slice",
 "For every failure plane and strata arrangement, the soil weight of a slice is the sum over strata of unit weight times the thickness of that stratum between the slip circle and the ground surface at the slice centre, times slice width; the deepest stratum continues downwards without limit. Splitting a stratum into identical strata therefore changes no factor of safety.",
 ["inputs"],"every stratum depth and unit weight within stated ranges, for representative planes",
 "validation examples use three fixed strata arrangements",[P],[("Slope._calculate_strip_weights",P)],["FOS of analysed planes"])
add("M03","Shear strength comes from the stratum at the slice base",
 "For every failure plane, each slice uses cohesion and friction angle of the stratum in which the middle of its base lies, and of the deepest stratum when the base is below all strata. The strength parameters of strata that no slice base touches never change the factor of safety.",
 ["inputs"],"every stratum depth, cohesion and friction angle within stated ranges, for representative planes",
 "validation examples use three fixed strata arrangements",[P],[("material assignment in Slope._analyse_circular_failure_bishop / _ordinary",P)],["FOS of analysed planes"])
add("M04","Removing a material removes exactly that stratum",
 "Removing a material by object or by depth removes the one stratum with that depth (including depth 0) and leaves the others, their order and their levels unchanged; a depth that is not assigned changes nothing, and remove_all empties the model. Adding a material and removing it again gives the same factors of safety as before.",
 ["inputs","histories"],"every set of up to 3 strata with arbitrary depths and every removal request",
 "one removal by depth and one by object are tested",[P],[("Slope.remove_material",P)],["strata drawn by plot_boundary","FOS"])
add("W01","The water table stays at its depth below the crest",
 "Whatever sequence of section, strata and load changes follows, a water table set at a depth lies at that depth below the crest (at the base of the section if deeper), until it is set again or removed; a negative depth is rejected and setting no depth removes it. The head factor is the squared cosine of the current slope's angle in automatic mode and the given factor clamped to 0..1 in manual mode.",
 ["inputs","histories"],"every depth, slope and sequence of up to 3 model changes",
 "tests set the water table last, at one depth",[P],[("Slope.set_water_table",P),("Slope.update_water_analysis_options",P),("Slope.set_external_boundary",P)],["water line in plot_boundary","FOS"])
add("W02","Pore pressure follows the water level above each slice base",
 "For every failure plane and water level, the pore pressure on a slice base is 9.81 times the height of water above it, where the water level is the lower of the water table and the ground surface and never below the base, multiplied by the head factor only for slices between the point where the water table meets the face and the toe. The reported factor of safety is that of Bishop's method with these pressures; without a water table there is none.",
 ["inputs"],"every water depth and head factor within stated ranges, for representative planes",
 "one water depth is compared with reference software",[P],[("water block in Slope._analyse_circular_failure_bishop / _ordinary",P)],["FOS of analysed planes"])
add("B01","Reported factors of safety solve Bishop's equation",
 "For every plane the factor of safety reported is obtained by iterating Bishop's simplified equation from the ordinary method's value: the first iterate that differs from its predecessor by less than the tolerance, or the last one after the maximum number of iterations; an iterate of 0 ends the iteration with 0. Slices are equally wide between entry and exit point, with weight, base angle and base strength taken at the slice centre.",
 ["inputs"],"circle geometry, cohesion, friction, unit weight, tolerance and iteration limits within stated bounds",
 "reference results are compared for about 15 planes to 1 %",[P],
 [("Slope._analyse_circular_failure_bishop",P),("Slope._analyse_circular_failure_ordinary",P)],["FOS of analysed planes"])
add("B02","Every reported factor of safety is a finite number, never negative",
 "For every model and plane, the analysis either drops the plane or reports a finite factor of safety that is not negative: never NaN or infinite, also for soils without cohesion and friction or with water pressures exceeding the soil weight. Planes whose driving moment is not positive, and models without materials, give no result.",
 ["inputs"],"all material parameters, water levels and load magnitudes within stated ranges, for representative planes",
 "tests use only ordinary soils",[P],[("Slope._analyse_circular_failure_bishop",P),("Slope._analyse_circular_failure_ordinary",P)],["FOS of analysed planes"])
add("R01","Results are complete, sorted and consistent",
 "After an analysis the results hold exactly the planes for which a factor of safety exists (and is below or at the requested maximum, if one above 0 is given), in ascending order, and the reported minimum factor of safety, critical circle and end points all belong to the first of them. When planes were added individually exactly those are analysed, otherwise the automatic search is used, and repeating an analysis gives the same results.",
 ["inputs","histories"],"every assignment of factors of safety to up to 4 planes, every maximum",
 "tests compare a few minima",[P],[("Slope.analyse_slope",P),("Slope.get_min_FOS / get_min_FOS_circle / get_min_FOS_end_points",P)],["get_min_FOS","search results"])
add("H01","No stale results after a model change",
 "After any successful change to section, materials, loads, water, options, limits or planes, results of earlier analyses are no longer reported: the model reports no factor of safety until it is analysed again, and a new analysis reports the same as a freshly built model with the same inputs.",
 ["histories","inputs"],"every sequence of up to 2 changes with arbitrary arguments after an analysis",
 "tests always re-analyse after a change",[P],[("Slope._reset_results",P)],["get_min_FOS after a change"])
add("H02","A rejected change leaves the model as it was",
 "Whenever a change to the model is rejected with ValueError, the section, strata, loads, water table, options and limits are all exactly as before the call.",
 ["inputs","histories"],"every model-changing call with arbitrary (also invalid) arguments on an arbitrary model",
 "tests never make a call that is rejected",[P,D],[("validation at the start of every Slope.set_* / update_* method",P)],["model state after a ValueError"])
add("H03","The order in which a model is built does not matter",
 "Setting section (height and length), materials, uniform loads, line loads, water table and water options in any order, and materials or loads in one call or several, gives the same model: same section, strata levels, load positions, water level and pore pressure factor. Only the analysis limits and minimum failure distance may depend on the order.",
 ["histories","inputs"],"all orders of the building steps with arbitrary arguments within stated bounds",
 "every test uses the same building order",[P],[("Slope.set_* methods",P)],["resulting model state, plots and FOS"])
add("H04","Slope models do not influence each other",
 "Building, editing, analysing or removing things in one slope never changes section, strata, loads, water table, options or results of another slope in the same program.",
 ["histories","inputs"],"two models with arbitrary inputs and any single operation on one of them",
 "no test holds two slopes at once",[P],[("per-instance state in Slope.__init__",P)],["the other slope's state and results"])
add("O01","Analysis options are clamped, and omitted ones are kept",
 "After any update of the analysis options the number of slices is in 10..500, the number of iterations in 500..100000 and the minimum failure distance at most 90 % of the section length; values inside the range are taken as given, values outside become the nearest bound, and options not given keep their value. The options in force are those used by the next analysis.",
 ["inputs"],"every combination of given and omitted options with arbitrary numbers",
 "tests set a few in-range values",[P],[("Slope.update_analysis_options",P)],["number of slices and planes used"])
add("D01","Dynamic analysis brackets the critical offset",
 "For every dependence of the factor of safety on the offset, a dynamic analysis terminates without error, tries the loads at the crest first, stops there if that is already safe, and otherwise only tries offsets between the crest and its far starting position, moving towards the crest when safe and away from it when unsafe. Exactly the loads marked dynamic are moved, all other loads and the number of loads stay as they were, and every tried offset is reported with the factor of safety found for it.",
 ["inputs","histories"],"every sequence of factors of safety returned by up to 4 (quick) trial analyses, arbitrary critical value and loads, continuous or not",
 "one dynamic analysis is run, checking only that results are non-empty",[P],[("Slope.analyse_dynamic",P),("Slope._set_dynamic_offset",P)],["get_dynamic_results","load positions after analysis"])
add("V01","Inputs are accepted exactly when documented as valid",
 "Materials, loads and slopes accept exactly the documented values: (for finite numbers) unit weight 1..50, friction angle not negative, slope height greater than 0, angle above 0 up to 90, length and water depth not negative; non-numbers and values out of range are rejected with ValueError. Negative cohesion, depth, magnitude, offset and length are taken as their absolute value, and a uniform load length of 0 or None means continuous.",
 ["inputs"],"every int, float or non-number argument","tests never pass an invalid value",[P,D],
 [("assert_* functions",D),("__post_init__ of Material, Udl, LineLoad",P),("Slope.set_external_boundary",P)],["exceptions and stored values"])
add("P01","Plotted strata tile the section",
 "For every slope and strata arrangement, the filled areas drawn for the strata are closed, do not overlap, and together cover exactly the section from base to ground surface: each stratum's area is the part of the section between its levels, and the deepest stratum is drawn down to the base. The outline drawn is the section's outline.",
 ["inputs"],"every slope geometry and up to 3 strata depths within stated ranges","plots are only called, never looked at",[P],
 [("Slope.plot_boundary",P)],["x/y of the filled traces"])
add("P02","Plotted failure planes show the analysed planes",
 "For every plane and factor of safety plots succeed and show it as a line that starts at its entry point, ends at its exit point and otherwise follows its circle between them (to plotting precision); the colour is that of the factor of safety rounded to one decimal, capped at 5, and the critical plot labels centre and factor of safety of the first result (with centre, radius and factor of safety shown over the label). The plot of all planes draws the critical plane and every other plane whose factor of safety is below the requested maximum, and no others.",
 ["inputs"],"every finite non-negative factor of safety, circle and maximum within stated ranges","plots are only called, never looked at",[P,U],
 [("Slope.plot_critical",P),("Slope.plot_all_planes",P),("Slope._plot_failure_plane",P),("generate_circle_coordinates, COLOUR_FOS_DICT",U)],["traces and annotations of the figure"])
add("P03","Plots mark loads, water and limits where the model has them",
 "For every model, the boundary plot draws each uniform load from its left to its right edge with height in proportion to its pressure relative to the largest assigned one, each line load at its position, with arrows that point down to the crest (those of a uniform load as long as it is high), the water table (unless it lies at the base of the section) from the left end of the section to the face (continuing along the ground from the toe) with its mark at its level, and the limit markers at the limits on the ground surface. Load labels show the magnitude to within 0.001.",
 ["inputs"],"every load, water depth, limits within stated ranges and decimal magnitudes up to 3+6 digits","plots are only called, never looked at",[P,U],
 [("Slope._plot_udl, _plot_ll, _plot_water, _plot_limits",P),("draw_arrow, get_precision",U)],["shapes and annotations of the figure"])
add("P04","The material table lists the strata in their colours",
 "For every model with strata, plots with the material table list each stratum exactly once, from the top down, with its name, unit weight, cohesion and friction angle under the headings that say so, beside the colour its area is filled with, and each area says the same of its stratum. A stratum given a usable colour is drawn in it, any other in an automatic one, and up to ten such strata all look different. Loads are drawn in their given colour, or in red (uniform) and blue (line) when it is missing or cannot be used. An unusable colour never makes a model or a plot fail.",
 ["inputs","histories"],"every set of up to 4 strata (12 with fixed values) with arbitrary values, depths and order of insertion, every combination of 10 colour arguments, one later change","plots are only called, never looked at",[P,U],
 [("Slope._plot_material_table, plot_boundary, _plot_udl, _plot_ll",P),("Slope.set_materials, remove_material (colours)",P),("is_color, MATERIAL_COLORS",U)],["annotations and shapes of the figure"])
add("P05","The legend explains the colours of the planes",
 "Every plot of a model with strata carries the legend of factors of safety exactly when it is asked for (by default only with all planes), and only once. The legend shows a colour for each tenth from 0 to 5 in order, evenly spaced, with the whole numbers labelled beside their colours, and for any factor of safety the colour in which its plane is drawn is the one the legend shows at that value (the last one above 5).",
 ["inputs","configurations"],"every factor of safety within stated ranges, every kind of plot, with and without table, loads, water and limits","plots are only called, never looked at",[P,U],
 [("Slope._plot_FOS_legend, plot_boundary, plot_critical, plot_all_planes",P),("create_fos_color_dictionary",U)],["shapes, annotations and traces of the figure"])
add("U01","The web form analyses the model that was entered",
 "For every valid web form submission, the slope analysed has exactly the entered height and length or angle (as chosen), materials, uniform and line loads, water table, limits and options, and the chosen kind of analysis (normal, or dynamic towards the entered critical factor of safety) is the one whose results are shown. Switched-off water table and limits are ignored, and internal limits are used only when switched on.",
 ["inputs","configurations"],"every combination of choices and numeric field values within the form's ranges","the web application has no tests",[V,"slope/forms.py","slope/models.py"],
 [("create_slope",V)],["the slope used to render the page"])
add("U02","The PDF report draws exactly the planes below the chosen maximum",
 "For every stored set of results and requested maximum factor of safety, the PDF export draws exactly the planes whose factor of safety is below that maximum, each from its entry to its exit point along its circle, coloured and labelled by its factor of safety, with the most critical drawn last (on top). Without stored results the user is redirected to the main page.",
 ["inputs"],"every set of up to 3 stored planes with arbitrary factors of safety and every maximum","the web application has no tests",[V,U],
 [("pdf",V)],["traces of the exported figure"])
add("U03","The web session shows what was last analysed",
 "For every sequence of requests: after a submission with at least one plane to show, the page shown again has the same planes, plot and entered forms without a new analysis, and the report is that of the last analysis shown. After a reset, a rejected submission, or in a new session the page shows untouched forms and the results of the default model (45 degrees, default material, 500 iterations, 10 slices), and nothing of an earlier submission. What is kept between requests survives being stored as JSON.",
 ["histories"],"every sequence of up to 4 requests (submission, rejected submission, submission without results, reset, page, report) with arbitrary factors of safety","the web application has no tests",[V],
 [("index, reset, pdf",V)],["page context, session and report of each request"])

add("U04","No submission makes the web page fail",
 "Whatever numbers are submitted through the web form, the answer is a page (or a redirect that ends at one), never a server error: when the forms and the model accept the submission, the page shows the planes found for it, also when there are none; when the forms or the model reject it (conflicting limits, negative loads or water depth, equal strata depths, impossible slope dimensions, ...), the main page is shown again with untouched forms and the results of the default model. The page and the report can be requested again afterwards.",
 ["inputs","histories"],"any height, length, angle, stratum, load, water depth or limits (one group arbitrary at a time, also outside of what is sensible), on a new session or after an accepted submission","the web application has no tests",[V],
 [("index, create_slope, reset",V)],["response of each request, page context"])

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl","w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
import sys
try:
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props: jsonschema.validate(p,sch)
except ImportError: pass
print(len(props))

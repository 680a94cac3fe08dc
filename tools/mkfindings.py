"""Writes known_findings.json."""
import json, os, subprocess
out = []
FIX = [
 ("S01", "fix: set_analysis_limits validates the limit", "set_analysis_limits validated left_x_right when right_x_left or right_x was given, so valid calls were rejected and invalid values accepted"),
 ("L04", "fix: remove_udls keeps the largest magnitude", "after remove_udls the largest pressure was a Udl object: plots failed"),
 ("L04", "fix: removing loads removes every", "removing loads while iterating skipped every second matching load"),
 ("V01", "fix: assert_strictly_positive_number", "a height of 0 was accepted"),
 ("M04", "fix: remove_material finds", "remove_material(depth=0) did nothing"),
 ("M04", "fix: set_materials without", "set_materials() on an empty model failed with IndexError"),
 ("O01", "fix: a number of slices", "slices=0 and iterations=0 were ignored, not clamped"),
 ("V01", "fix: a missing slope height", "Slope(height=None) failed with TypeError"),
 ("H02", "fix: rejected calls", "rejected set_materials / update_boundary_options calls had already changed the section"),
 ("H03", "fix: strata, water table and automatic", "strata levels, water level and automatic head factor kept the values of the section in force when they were set (also M01, W01, P01)"),
 ("S03", "fix: any number of loads", "about 20 loads left one or no entry point: division by zero in the search"),
 ("S02", "fix: the search does not return", "planes next to loads, and planes coming out before the intended exit point, were outside of the limits or shorter than the minimum distance"),
 ("G04", "fix: all circles of a plane", "the second and later circles of a pair were built on the clipped end points of the first"),
 ("B02", "fix: a soil without any resistance", "no cohesion and no friction gave a NaN factor of safety"),
 ("L03", "fix: a line load at the border", "a line load at a slice border was lost or counted twice because neighbouring borders differed by rounding"),
 ("D01", "fix: dynamic analysis handles", "dynamic analysis failed for continuous loads and divided by zero when both ends agreed"),
 ("P02", "fix: plotting a very short", "plotting a critical plane without circle points between its ends failed with IndexError"),
 ("U01", "fix: web form: dynamic analysis", "the Decimal critical FOS of the form made the dynamic analysis fail with TypeError"),
 ("U02", "fix: pdf without stored", "the PDF page without stored results was a server error"),
 ("U01", "fix: web form: a model without", "a model without any plane below the maximum FOS was a server error"),
 ("M01", "fix: the section always reaches", "a section made smaller after assigning strata no longer reached to the deepest one"),
 ("W02", "fix: apply pore pressure of a water table at the base", "a water table at (or below) the base of the section was ignored for circles dipping below it"),
 ("P03", "fix: draw the water table along", "a water table at the level of the toe stopped there in the plot when rounding put its end right of the toe"),
 ("P04", "fix: fall back to the automatic color", "loads with an empty colour, malformed hex colours and colour names unknown to plotly made the plot or the call fail, or loads were drawn without colour"),
 ("U04", "fix: web form: values that the model rejects", "values that the forms accept and the model rejects (conflicting limits, negative loads, equal depths, ...) were a server error"),
 ("P05", "fix: plot_all_planes draws the legend", "plot_all_planes drew the legend twice, and with legend=False once"),
 ("H01", "fix: individual planes follow", "individually added planes kept the end points of the section in force when they were added"),
]
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()]
for pid, pre, what in FIX:
    h = [a for a, b in log if b.startswith(pre)]
    assert len(h) == 1, (pre, h)
    out.append(dict(property=pid, status="fixed", commit=h[0], what=f"fixed: property={pid} {h[0]} {what}"))
assert len(out) == len([1 for a, b in log if b.startswith("fix")]), "unlisted fix commits"
for job, label, what in (("shared-udl", "shared object: uniform loads", "one Udl object assigned to two slopes: a section change (or load) of one slope moves the load in the other"),
                         ("shared-ll", "shared object: line loads", "one LineLoad object assigned to two slopes: a section change (or load) of one slope moves the load in the other"),
                         ("shared-material", "shared object: strata", "one Material object assigned to two slopes: a section change (or strata change) of one slope changes the level of the stratum in the other")):
    out.append(dict(property="H04", status="finding", match=dict(job=job, label=label), what=what))
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w"), indent=1)

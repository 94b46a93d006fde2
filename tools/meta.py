#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(HERE, 'tools', 'claimed.txt')).read().split()

P = []
def p(id, title, statement, over, text, why, files, mech, level_note='', na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  over=over, text=text, why=why, files=files, mech=mech,
                  note=level_note, na=na))

INP = ['inputs']
p('C01', 'Minimum-curvature step is the exact circular arc',
  'For any two stations, the displacement between them is that of the circular arc (or straight line) which leaves the first station along its direction, arrives along the second station\'s direction and has the measured-depth difference as its length. The dogleg is the angle between the two directions, the ratio factor tends to one for straight intervals, and reversing the path negates the displacement.',
  INP, 'all inclinations, azimuths and measured-depth differences, including straight and near-straight intervals',
  'Tests compare a handful of published stations; the identity must hold for every pair of directions, including straight, vertical and 90-degree cases where the formulas switch branch.',
  ['welleng/utils.py'], [('get_dogleg, get_rf, min_curve_step, MinCurve', 'welleng/utils.py')])
p('C02', 'Survey positions are the accumulated minimum-curvature steps',
  'The position of every survey station is the tie-on position plus the sum of the minimum-curvature steps up to it, the same in every representation the survey offers (NEV arrays, XYZ, components), whatever the angle units, depth units, tie-on, slicing or splicing of surveys end to end. Dogleg severity is the dogleg per 30 m or 100 ft.',
  INP, 'all station angles, depth steps, tie-on positions and both unit systems',
  'Tests check a few surveys with default options; unit switches, non-zero tie-ons and slices multiply the cases beyond any sample.',
  ['welleng/survey.py'], [('Survey, slice_survey, splice_surveys', 'welleng/survey.py')])
p('C03', 'Directions, angles and coordinate frames convert losslessly',
  'Converting between inclination/azimuth and unit vectors, between NEV and XYZ axes, and between the NEV and high-side frames preserves lengths and angles and each conversion undoes its counterpart. Angles come back in the documented range.',
  INP, 'all angles and vectors, including vertical ones and all quadrants',
  'Round trips must hold in every quadrant and at the vertical; tests use a few values.',
  ['welleng/utils.py'], [('get_vec, get_angles, get_nev, get_xyz, HLA_to_NEV, NEV_to_HLA', 'welleng/utils.py')])
p('C04', 'Interpolated points lie on the surveyed well path',
  'A point interpolated by measured depth, true vertical depth or at a regular step lies on the circular arc between its bracketing stations, with the direction of the arc at that point; the original stations are kept, and interpolating never changes them. Requests beyond the end of the survey give no point.',
  INP, 'all stations and all depths within the surveyed range or beyond its end',
  'Tests sample a few depths of one survey; which interval is chosen and whether the arc is followed depend on every depth and angle.',
  ['welleng/survey.py'], [('interpolate_md, interpolate_tvd, interpolate_survey, interpolate_survey_tvd', 'welleng/survey.py')])
p('C05', 'Arc and toolface constructions are geometrically consistent',
  'An arc built from a dogleg and radius, transformed to any toolface and start direction, ends at the position and direction of the circular arc with those parameters, and the conversions between toolface, chord and tangent vectors agree with it. No input array is altered.',
  INP, 'all doglegs, radii, toolfaces and start directions',
  'Tests use a few arcs; the frame construction must be right for every orientation.',
  ['welleng/utils.py'], [('Arc, get_toolface, get_arc', 'welleng/utils.py')])
p('C06', 'Well-path connections reach the requested target',
  'A connection from a start position and direction to a target position, to a target direction or to a measured depth is a circular arc of the design severity followed by a tangent straight, or, when the target cannot be reached so, the one arc that reaches it: it ends at the requested target, and its measured depth, dogleg, severity (in the unit of the depths) and nodes are those of that arc and straight. Stations interpolated on it, and the survey made of a chain of connections, lie on it. With closest_approach the end is the point of the tightest arc nearest to the target. (Targets given both as position and direction are solved by iteration and are left out, as are turns of exactly 180 degrees.)',
  INP, 'all start and end positions, directions and design doglegs in the encoded range',
  'Tests run randomised connections and only check the end position within a tolerance; the construction must hold for every geometry.',
  ['welleng/connector.py'], [('Connector, min_dist_to_target, min_curve_to_target, get_curve_hold_data, get_min_curve', 'welleng/connector.py')])
p('C07', 'Position uncertainty covariances are valid and correctly accumulated',
  'Every covariance matrix reported for a survey station is symmetric and positive semi-definite, equals the sum of the contributions of the individual error sources, and each source contributes according to its propagation mode: random sources add per station, while systematic, global and pad-wide ones add linearly along the survey. The survey reports these matrices along its own axes, in the NEV and the high-side frame alike, on top of the covariance of its tie-on.',
  INP, 'all error magnitudes, weights and station geometries within the bound',
  'Tests compare one standard well with published numbers; validity of the matrix must hold for every survey and every error value.',
  ['welleng/error.py', 'welleng/utils.py'], [('ErrorModel propagation', 'welleng/error.py'), ('NEV_to_HLA, HLA_to_NEV', 'welleng/utils.py')])
p('C08', 'Tool error terms follow their published weighting functions',
  'Each named error term contributes, at every station and for every tool inclination, azimuth, gravity and magnetic field, the partial derivative given by its published weighting function, and terms that are singular at the vertical use the published replacement there. (A data-file term whose formula names a quantity the library does not bind is announced by a warning and left out of this claim.)',
  INP, 'all inclinations, azimuths, dips, fields and magnitudes',
  'Tests compare a few stations of three published wells; each weighting function must hold for all angles.',
  ['welleng/errors/tool_errors.py', 'welleng/errors/tool_codes'], [('weighting functions', 'welleng/errors/tool_errors.py')])
p('C09', 'Error formula interpreter evaluates what the formula says',
  'A weighting formula read from a tool definition evaluates, for every value of its variables, to the value of that arithmetic expression under the usual precedence and associativity. Text that is not such an expression is refused.',
  ['inputs', 'programs'], 'all formulas of the supplied tool definitions and a grammar of small expressions, with all variable values',
  'Tests do not evaluate the formulas separately from the published totals.',
  ['welleng/errors/interpreter.py'], [('formula interpreter', 'welleng/errors/interpreter.py')])
p('C10', 'Separation factor follows from positions and uncertainties',
  'Between two wells the reported separation is the distance from each reference station to the closest point found on the offset, the uncertainty of each well is its covariance projected on that line, and the separation factor equals (distance minus the hole radii minus the surface margin) divided by the scaled combined uncertainty. While the holes do not overlap, the factor never grows when an uncertainty, a radius or a margin grows. Below a kick-off point the uncertainty of the reference well is what it gained since, and a minimum found between two stations is reported as a station there, with the position and uncertainty the well has there.',
  INP, 'all well positions, covariances, radii and margins within the bound',
  'Tests compare one standard well set; monotonicity and consistency must hold for all geometries and settings.',
  ['welleng/clearance.py'], [('Clearance, IscwsaClearance', 'welleng/clearance.py')])
p('C11', 'Azimuth references differ by exactly the declination and convergence',
  'True azimuth is magnetic azimuth plus declination and grid azimuth is true azimuth minus grid convergence, whichever of the three the survey was given in, so that all three are reported consistently and the well path does not depend on the reference used to enter it.',
  ['inputs', 'configurations'], 'all azimuths, declinations and convergences, and the three reference choices',
  'Tests use zero or one convergence value; sign mistakes are invisible then.',
  ['welleng/survey.py'], [('azimuth references', 'welleng/survey.py')])
p('C12', 'Unit and notation conversions are exact inverses',
  'Converting decimal degrees to degrees, minutes and seconds and back returns the value and its sign, with minutes and seconds in range. Dogleg severity and radius of curvature, sigmas and covariance matrices, covariance elements and matrices convert into each other without loss, for single values and arrays alike. Volumes, scaling and unit vectors are those of their definition.',
  INP, 'all values in range',
  'Tests check few values; sign and carry cases are rare values.',
  ['welleng/utils.py', 'welleng/units.py'], [('conversion helpers', 'welleng/utils.py')])
p('C13', 'Uncertainty ellipses and hull vertices match the covariance',
  'The hull ring at a station has the requested number of distinct vertices, in order, in the plane normal to the well, each on the ellipse about the station whose axes lie along the principal axes of the high-side/lateral covariance, with semi-axes of sigma standard deviations plus the hole radius, the surface margin Sm and half of sigma_pa (for the pedal curve: at that distance in every direction; for a circle: the hole radius). The mesh made of the rings is closed, and a sliced mesh covers the stations asked for, section by section.',
  INP, 'all covariances, directions, radii and settings within the bound',
  'Tests only build a mesh; the vertices\' geometry is never compared with the uncertainty.',
  ['welleng/mesh.py'], [('WellMesh', 'welleng/mesh.py')])
p('C14', 'Torque and drag satisfies the soft-string force balance',
  'Along the string the tension, torque and side force at each station follow the soft-string balance of buoyed weight, friction and curvature from the bit upwards, for each operation direction; without friction the hook load is the buoyed weight hung over the vertical depth.',
  INP, 'all geometries, weights, friction factors and operations within the bound',
  'Tests check one example\'s numbers.',
  ['welleng/torque_drag.py'], [('HookLoad, TorqueDrag', 'welleng/torque_drag.py')])
p('C15', 'String architecture keeps sections contiguous and consistent',
  'Sections added to a string, casing or bottom-hole assembly from the top or from the bottom are contiguous, ordered, within the string\'s bounds and keep length equal to bottom minus top.',
  ['inputs', 'histories'], 'all lengths and depths, and all short sequences of additions from top and bottom',
  'Tests do not cover bottom-up addition with symbolic lengths or clipping.',
  ['welleng/architecture.py'], [('String, BHA, WellBore', 'welleng/architecture.py')])
p('C16', 'Fluid density satisfies mass and volume balance',
  'A drilling fluid of given composition has fractions which add up to one and a density equal to the mass of its components over their volume; the density at depth accounts for compression and expansion and reduces to the surface density at reference conditions.',
  INP, 'all densities, ratios, pressures and temperatures within the bound',
  'Tests check one composition.',
  ['welleng/fluid.py'], [('Fluid', 'welleng/fluid.py')])
p('C17', 'Engineering-data queries return exactly the matching records',
  'A query for records by tag and attributes returns every record whose attributes all match (or, with OR, any of them) once, and no other; the ancestors of a wellbore are all its parents and their parents; the data of a wellbore are its records, those of its well and datum, and the surveys of its ancestors, each once; repeating a query, or making another one in between, gives the same answer.',
  ['inputs', 'histories'], 'all small record sets, attribute assignments and sequences of queries',
  'Tests run fixed queries against one data file.',
  ['welleng/exchange/edm.py'], [('EDM', 'welleng/exchange/edm.py')])
p('C18', 'Well plan files carry the same well path in and out',
  'Exporting a well plan to the interchange file format and reading it back gives the same stations, header values and targets to the last decimal written, for any number of plans; the steps of a plan made from a survey are the survey\'s section ends with their locations, and the survey made from a plan has the plan\'s stations, no station being lost or repeated.',
  INP, 'all station values expressible in the format within the bound',
  'Tests read one file.',
  ['welleng/exchange/wbp.py'], [('WellPlan, load, export, wbp_to_survey', 'welleng/exchange/wbp.py')])
p('C19', 'Calculations do not change the objects they are given',
  'Interpolating, slicing, projecting, splicing, clearance and vertical-section calculations leave the survey, header and arrays that they are given exactly as they were, so that repeating a calculation gives the same answer.',
  ['inputs', 'histories'], 'all surveys in any azimuth reference and unit, and repeated calls',
  'Tests call each function once on fresh objects and never compare the inputs afterwards.',
  ['welleng/survey.py', 'welleng/clearance.py', 'welleng/exchange/wbp.py'], [('survey calculations', 'welleng/survey.py')])
p('C20', 'Derived survey quantities agree with the well path',
  'Vertical section, displacement, toolface, build and turn rates and plane normals reported for a survey are those of its positions and directions, whatever azimuth is chosen for the section.',
  INP, 'all stations and section azimuths',
  'Tests check few values of these quantities.',
  ['welleng/survey.py'], [('derived quantities', 'welleng/survey.py')])
p('C21', 'Nodes hold one consistent position and direction',
  'A well node given a direction as angles or as a vector, in degrees or radians, reports the same direction in every form, and its position equals what it was given in either axis convention.',
  ['inputs', 'configurations'], 'all directions and positions and each way of giving them',
  'Tests construct few nodes.',
  ['welleng/node.py'], [('Node', 'welleng/node.py')])
p('C22', 'Projecting ahead continues the well path as requested',
  'Projecting to the bit or ahead of the survey adds a station on the circular arc with the requested length, severity and toolface from the last station; projecting to a target ends at the target.',
  INP, 'all last stations, lengths, severities and toolfaces',
  'Tests project few cases.',
  ['welleng/survey.py'], [('project_ahead, project_to_target, project_to_bit', 'welleng/survey.py')])
p('C23', 'Tortuosity, difficulty and curvature indices are those of the path',
  'The tortuosity index and its modified form are the published sums over the sections of a path in which the well turns in one plane (a new section begins where the turning plane changes or, when asked, where the severity does): sections times the excess of the drilled length over the distance from the section start, normalised by the measured depth. A straight well has index zero at every station; the values do not depend on where the well is or which way it heads, and a well described in feet has the index of the same well in metres. The directional difficulty index is log10(measured depth x displacement x accumulated dogleg / vertical depth) in feet and degrees, in either unit. The maximum curvature survey keeps the stations and puts between each pair one that has bent half the interval at the severity increased by the given amount, in the direction of the bend, whatever the azimuth and the unit.',
  INP, 'all azimuths, places, step lengths and bends in the bounds',
  'Tests check the values of one survey in metres.',
  ['welleng/survey.py'], [('tortuosity_index, modified_tortuosity_index, directional_difficulty_index, maximum_curvature', 'welleng/survey.py')])
p('C26', 'Extending a well to an inclination or a depth reaches it',
  'drop_off turns from the start, up or down in its own vertical plane and at the severity asked for, to the target inclination, holds it for what is left of the length, and goes as far as it can when the length is too short. extend_to_tvd goes straight on, or through such a turn and a hold, to the depth asked for. Positions, directions and measured depths of what is returned are those of the arc and the tangent.',
  INP, 'all starts, directions, targets, severities and lengths in the bounds',
  'Tests only drop to the vertical from one node.',
  ['welleng/connector.py'], [('drop_off, extend_to_tvd', 'welleng/connector.py')])
p('C24', 'Map projection conversions round-trip',
  'Converting a position between projected coordinates, geographic coordinates and another projection and back returns the position, and the convergence and scale factor belong to it.',
  INP, 'all positions within a projection\'s area of use',
  'Tests use one location.',
  ['welleng/survey.py'], [('SurveyParameters', 'welleng/survey.py')],
  na='the whole computation is in PROJ (a compiled C++ library reached through pyproj) and depends on its data files; there is no source here for a symbolic executor to encode, and the Python around it only forwards the numbers')
p('C25', 'Mesh collision distances agree with the geometry',
  'The mesh based clearance reports the distance between the closest points of the two uncertainty hulls, and a collision exactly when the hulls intersect.',
  INP, 'all pairs of hulls',
  'Tests check one well set.',
  ['welleng/clearance.py', 'welleng/mesh.py'], [('MeshClearance', 'welleng/clearance.py')],
  na='the distance and collision decision are made by the compiled FCL library through python-fcl and trimesh; only the argument passing is in this repository, so there is nothing within reach to encode')

LV = ('Every path of the real functions (taken from /repo at run time) is executed on symbolic '
      'reals and each assertion is decided by z3 over all values in the bounds recorded in the '
      'evidence; a counterexample is only reported when it reproduces on the real library. '
      'Floats are read as exact reals; numpy/scipy/math primitives are trusted to have their '
      'documented real-number meaning; harnesses listed as UNDECIDED are no part of the claim.')

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(dict(
                id=x['id'], title=x['title'], statement=x['statement'],
                quantifier=dict(over=x['over'], text=x['text']),
                why_tests_cant=x['why'],
                anchors=dict(files=x['files'],
                             mechanism=[dict(name=a, where=b) for a, b in x['mech']]))) + '\n')
    py = '/opt/venv/bin/python run.py '
    m = dict(version=1,
             setup_cmd='/opt/venv/bin/python run.py --selftest',
             checks=[], not_applicable=[])
    for x in P:
        if x['id'] in CLAIMED:
            m['checks'].append(dict(
                property=x['id'], quick_cmd=py + x['id'] + ' --tier quick',
                thorough_cmd=py + x['id'] + ' --tier thorough',
                evidence_file=f"evidence/{x['id']}.json",
                technique='symbolic execution of the Python source, obligations decided by z3 (nonlinear real arithmetic)',
                level='model_checking', level_note=(x['note'] + ' ' + LV).strip()))
        else:
            m['not_applicable'].append(dict(property=x['id'],
                reason=x['na'] or 'no check built yet'))
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    assert all(len(x['title']) <= 80 for x in P), [x['title'] for x in P if len(x['title']) > 80]

main()

#!/usr/bin/env python3
"""Writes properties.jsonl (one source for ids, titles, statements, anchors)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe_at,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe_at}
    if state: a["state"]=[{"name":n,"where":files[0]} for n in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
              "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
I="curves/include/curves/"; S="curves/src/"
MI=I+"LocalSupport2CoefficientManager-inl.hpp"; MH=I+"LocalSupport2CoefficientManager.hpp"
PC=I+"PolynomialSplineContainer.tpp"; PH=I+"PolynomialSplineContainer.hpp"
E3=S+"CubicHermiteE3Curve.cpp"; H3=S+"CubicHermiteSE3Curve.cpp"
p("C01","Coefficient store is an ordered time map with stable keys",
 "After any sequence of insertions, appends, moves, removals, value updates, batch updates and clears, a coefficient manager holds exactly the coefficients that an ordered map from time to (key, value) would hold. Re-inserting at an occupied time keeps the key and replaces the value, every other edit leaves all untouched coefficients unchanged, and each key always leads to its own time and value until that coefficient is removed. All listings (times, keys, full map, size, emptiness, first and last time, iteration, membership by time or key) agree with that map and are ordered by time.",
 ["histories","inputs"],"every finite history of edits with any finite times and values",
 "unit tests insert one fixed ascending list; the time map and the key index can only drift apart after particular edit sequences",
 [MH,MI],[("insertCoefficient/insertCoefficients/addCoefficientAtEnd/modifyCoefficient/remove*/update*/modifyCoefficientsValuesInBatch",MI),("keyToCoefficient_ <-> timeToCoefficient_ index",MH)],
 ["public interface of LocalSupport2CoefficientManager"],["time map","key index"])
p("C02","Keys are never handed out twice",
 "Every coefficient created anywhere in the process gets a key that no other coefficient ever had: across all managers and curves, after removals and clears, and when several threads create coefficients at the same time.",
 ["schedules","histories"],"every interleaving of concurrent key requests and every history of create and remove",
 "the tests are single threaded and never compare keys of different managers",
 [S+"KeyGenerator.cpp",I+"KeyGenerator.hpp",MI],[("KeyGenerator::getNextKey counter under a mutex",S+"KeyGenerator.cpp")],
 ["keys returned by key requests and by insertions"],["process wide key counter"])
p("C03","Lookup brackets any time between its neighbouring coefficients",
 "For every query time within the first and last coefficient time of a manager holding at least two coefficients, the lookup succeeds and returns two adjacent coefficients whose times enclose the query; at the time of an inner coefficient that coefficient is the left one, and at the last time it is the right one. Outside that interval, and for fewer than two coefficients, the lookup reports failure.",
 ["histories","inputs"],"every reachable set of coefficients and every finite query time",
 "tests probe midpoints of one regular grid; off-by-one at either end or after removals is not visible there",
 [MI],[("getCoefficientsAt upper_bound and end handling",MI)],["getCoefficientsAt"])
p("C04","Window and range queries return exactly the covering coefficients",
 "A query for the coefficient times from a start time to the end of the curve returns, in order, exactly the times not before the start. A range query returns exactly the coefficients needed to evaluate the curve on that range: from the last coefficient not after the start to the first one not before the end, with the range clipped to the curve and empty if it misses the curve.",
 ["histories","inputs"],"every reachable set of coefficients and every pair of finite range limits",
 "there is no test for either query (the test case is an empty todo)",
 [MI],[("getTimesInWindow",MI),("getCoefficientsInRange clipping and loop",MI)],["getTimesInWindow","getCoefficientsInRange"])
p("C05","Copies of managers and curves are independent",
 "A copy of a coefficient manager or of a curve (by construction or assignment, also self-assignment and over a non-empty target) has the same times, keys and values as the original at the moment of copying. Afterwards, no edit or destruction of one of them is visible through the other, and both react alike to the same later edits and extensions.",
 ["histories"],"every interleaved history of edits on an original and its copies",
 "no test copies a manager or curve and edits both",
 [MI,MH,E3,H3],[("copy constructor/assignment rebuilding the key index",MI)],["all observers of both objects after each edit"],["key index holds iterators into the time map"])
p("C06","Invalid edits and reads abort, valid ones never do",
 "Edits of a coefficient manager or pose curve that name a coefficient that does not exist, append or extend with a time that is not later than the last one, move a coefficient onto another one, or pass lists of different lengths terminate the program with a fatal check. So do reading a coefficient by a key that is not there, writing CSV tables that are empty or whose times and vectors do not fit together, and loading a CSV file that is not there or too narrow. No valid edit or query of any history terminates the program.",
 ["histories","inputs"],"every reachable manager state and every valid and invalid call",
 "tests never exercise the fatal checks in states reached by editing",
 [MI,I+"SlerpSE3Curve.hpp",S+"SlerpSE3Curve.cpp",I+"CubicHermiteSE3Curve.hpp",S+"CubicHermiteSE3Curve.cpp",S+"helpers.cpp"],[("CHECK preconditions",MI),("SamplingPolicy::extend",I+"CubicHermiteSE3Curve.hpp"),("writeTimeVectorCSV",S+"helpers.cpp")],["process termination in a forked child"])
p("C07","Extending a linear pose curve keeps one coefficient per sampling period",
 "Extending a Slerp pose curve by single measurements keeps, after the first two, one coefficient for each run of as many measurements as the sampling ratio, and that coefficient always carries the time and value of the latest measurement of its run. Extending with several measurements at once adds all of them; with ratio one every measurement adds a coefficient; older coefficients and their keys never change.",
 ["histories","configurations"],"every history of single and multiple extensions, fits, clears and changes of the ratio",
 "there is no test of extending",
 [I+"SlerpSE3Curve.hpp",S+"SlerpSE3Curve.cpp",I+"SamplingPolicy.hpp",MI],[("SamplingPolicy::extend<SlerpSE3Curve>",I+"SlerpSE3Curve.hpp"),("modifyCoefficient",MI)],["times, values and keys of the curve after each extension"],["measurementsSinceLastExtend_"])
p("C08","Sampling policy decides when a Hermite pose curve gains a coefficient",
 "Extending a Hermite pose curve through its sampling policy always makes the curve end at the latest measurement, and makes a measurement a lasting coefficient only if at least the minimum number of measurements was taken and more than the minimum period has passed since the previous lasting one; otherwise the provisional last coefficient is replaced. Lasting coefficients keep their time and pose, and their velocity is the slope between their neighbours.",
 ["histories","configurations"],"every history of extensions and clears with any minimum count and period",
 "there is no test of extending",
 [I+"CubicHermiteSE3Curve.hpp",I+"SamplingPolicy.hpp"],[("SamplingPolicy::extend/defaultExtend/interpolationExtend<CubicHermiteSE3Curve>",I+"CubicHermiteSE3Curve.hpp")],["times, poses and velocities of the curve after each extension"],["measurementsSinceLastExtend_","lastExtend_"])
p("C09","Hermite position curve passes through its knots with the fitted slopes",
 "A Hermite position curve fitted to increasing times evaluates at every knot to the given position. Its velocity there is the given (by default zero) velocity at both ends, and at inner knots the slope between the two neighbouring knots; a periodic fit has at both ends the slope between the neighbours of the seam, wrapped around by one period.",
 ["inputs","configurations"],"every increasing list of times, every list of positions, all three ways of fitting",
 "tests of the position curve do not exist; a handful of knots cannot cover uneven spacing",
 [E3,I+"CubicHermiteE3Curve.hpp"],[("fitCurve/fitCurveWithDerivatives/fitPeriodicCurve/calculateSlope",E3)],["evaluate and evaluateDerivative at the knots"])
p("C10","Hermite position curve and its derivatives are consistent between knots",
 "Between two knots a Hermite position curve is the cubic determined by the positions and velocities at both knots, and the reported velocity and acceleration are the first and second derivative of that cubic. Outside the first and last knot, on an empty curve and for other derivative orders, evaluation returns false; with a single knot, position and velocity at its time are returned.",
 ["inputs"],"every fitted curve and every evaluation time",
 "needs the relation between value, velocity and acceleration at every time, not sampled constants",
 [E3],[("evaluate",E3),("evaluateDerivative",E3),("evaluateLinearAcceleration",E3)],["evaluate, evaluateDerivative(1,2), evaluateLinearAcceleration"])
p("C11","Hermite pose curve interpolates poses with consistent twists",
 "A Hermite pose curve passes through the fitted poses with the fitted velocities, its translation is the cubic of the position curve, and its rotation stays a unit rotation that is continuous across knots. The reported linear and angular velocity is the time derivative of the reported pose everywhere, and moving all poses by a constant rigid transformation moves the whole curve by that transformation; rotations about one fixed axis reduce to the scalar cubic of the angle.",
 ["inputs"],"every list of poses (neighbours less than half a turn apart), every evaluation time",
 "the pose curve is excluded from the build of the tests; a few poses cannot show frame mix-ups",
 [H3,I+"CubicHermiteSE3Curve.hpp"],[("evaluate/evaluateDerivative/evaluateLinearAcceleration/calculateSlope/fit*",H3)],["evaluate, evaluateDerivative, evaluateLinearAcceleration"])
p("C12","A polynomial spline evaluates its polynomial and holds its ends",
 "For every order from one to five, a spline returns the value, first and second derivative of the polynomial with its coefficients (highest power first) at times within its duration, and those of the nearest end outside. The time vectors offered for each order, also added in place and at zero, give the same numbers when multiplied with the coefficients.",
 ["inputs","configurations"],"every order, coefficients, duration and time",
 "tests cover cubic and quintic at a few points; the other orders and most time vectors are never called",
 [I+"PolynomialSpline.hpp",I+"polynomial_splines_traits.hpp",S+"polynomial_splines_traits.cpp"],[("get*AtTime clamp",I+"PolynomialSpline.hpp"),("tau/dtau/ddtau",I+"polynomial_splines_traits.hpp"),("get/add*TimeVector*",I+"PolynomialSpline.hpp")],["evaluation getters","time vector getters"])
p("C13","A spline computed from boundary conditions meets them",
 "A spline computed from a positive duration and boundary conditions meets all conditions its order supports: positions at both ends for every order, plus the initial velocity from quadratic, the final velocity from cubic, the initial acceleration from quartic and the final acceleration for quintic. Its duration is the requested one, also when an existing spline is recomputed.",
 ["inputs","configurations"],"every order, duration and boundary values",
 "tests check cubic and quintic for a few values",
 [I+"polynomial_splines_traits.hpp",I+"PolynomialSpline.hpp"],[("spline_rep<double,1..5>::compute",I+"polynomial_splines_traits.hpp"),("computeCoefficients",I+"PolynomialSpline.hpp")],["evaluation at both ends"])
p("C14","The clock of a spline container agrees with evaluation by time",
 "However the time of a spline container was reached (steps of any non-negative length, jumps, resets, splines appended before or after, refits), the current position, velocity and acceleration are those of the trajectory at the current time, and the active spline is the one in force then. Time advances by exactly the requested step until the end of the trajectory is reached, where advancing reports false and changes nothing; emptying the container sets time and duration back to zero. The self check of a container that holds splines passes exactly when the clock lies on the trajectory and no spline has a negative duration or a coefficient that is not a number.",
 ["histories","inputs"],"every history of clock and edit operations on splines of positive duration",
 "tests step through one container with small regular steps",
 [PC,PH],[("advance/setContainerTime/resetTime/reset/addSpline",PC),("checkContainer",PC),("activeSplineIdx_, timeOffset_",PH)],["getPosition/Velocity/Acceleration, getContainerTime, getActiveSplineIndex"],["containerTime_","timeOffset_","activeSplineIdx_","containerDuration_"])
p("C15","A spline container is one trajectory on its total duration",
 "A container of splines evaluates, at every time, the spline whose interval contains that time (a junction belongs to the later spline) at the time since its start, with the first value held before the start and the last value held after the end. The total duration is the sum of the durations, the active index and its start offset describe that interval, and the end values are those at the total duration.",
 ["histories","inputs"],"every list of splines with positive durations, every time",
 "tests sample three splines at a few times",
 [PC,PH],[("getActiveSplineIndexAtTime",PC),("get*AtTime/getEnd*",PC),("addSpline duration sum",PH)],["getActiveSplineIndexAtTime, get*AtTime, getEnd*, getContainerDuration"])
p("C16","Fitting knots yields a smooth trajectory through all knots",
 "Fitting a container to strictly increasing knot times yields one spline per interval, passing through every knot position at its time. Position, velocity and acceleration are continuous at inner knots and the given end velocities and accelerations are met as far as the order has enough coefficients: for quintic all of them, for cubic end velocities with continuous acceleration; if there are too few coefficients the result is the piecewise linear interpolation.",
 ["inputs","configurations"],"every order, number of knots, increasing times and positions",
 "tests fit a few fixed knot lists with the quintic only",
 [PC],[("setData (three overloads) and constraint set-up",PC),("extractSplineCoefficients",PC)],["splines and evaluations after fitting"])
p("C17","Invalid knots are rejected without a partial trajectory",
 "Fitting fewer than two knots or knot times that do not strictly increase returns false and leaves an empty container with zero time and duration, whatever it contained before. A successful fit replaces everything that was there and restarts the clock.",
 ["histories","inputs"],"every position of an invalid knot, every order and overload, every earlier content",
 "tests never pass invalid knots to a container with content",
 [PC],[("size and duration checks, reset in setData",PC)],["return value, isEmpty, duration, time, splines"])
p("C18","Scalar and vector curves live on the given time axis",
 "A polynomial scalar or vector curve fitted to knots evaluates to each knot value at that knot's own time, starts at the first and ends at the last knot time, and holds its end values outside. Shifting all knot times shifts the curve and nothing else; first and second derivatives match the requested boundary values and other derivative orders return false, and each vector component is the scalar curve of that component.",
 ["inputs"],"every knot list with any time offset, every dimension and boundary values",
 "tests use one offset for the scalar curve and none for the vector curve",
 [I+"PolynomialSplineScalarCurve.hpp",I+"PolynomialSplineVectorSpaceCurve.hpp"],[("fitCurve overloads and minTime_",I+"PolynomialSplineScalarCurve.hpp"),("per component containers",I+"PolynomialSplineVectorSpaceCurve.hpp")],["evaluate, evaluateDerivative, getMinTime, getMaxTime"],["minTime_"])
p("C19","Saved curves and tables load back unchanged",
 "A table of non-empty text fields written as CSV loads back field by field. Times and vectors written as CSV load back as the same numbers in the same order and columns, also for files with two time columns, and a saved pose curve contains for every time the evaluated pose. The sampled text form of a Hermite curve lists, line by line, what the curve evaluates to; if the file cannot be opened, writing it returns false.",
 ["inputs"],"every table of fields without commas or line breaks, every list of finite times and vectors",
 "no test touches the file helpers",
 [S+"helpers.cpp",H3],[("writeCSV/loadCSV",S+"helpers.cpp"),("writeTimeVectorCSV/loadTimeVectorCSV/loadTimeTimeVectorCSV",S+"helpers.cpp"),("saveCurveAtTimes",H3)],["files in a scratch directory"])
p("C20","Clearing or refitting a curve leaves no trace of its past",
 "After clearing or refitting any of the curve classes (Hermite position and pose, Slerp pose, polynomial scalar and vector), the curve behaves exactly like a newly constructed curve given the same data: same time range, size, values, derivatives, and, for the extendable curves, the same reaction to later extensions.",
 ["histories"],"every history before the clear or fit",
 "tests fit each curve once",
 [E3,H3,S+"SlerpSE3Curve.cpp",I+"PolynomialSplineScalarCurve.hpp",I+"PolynomialSplineVectorSpaceCurve.hpp"],[("clear/fitCurve of each curve class",E3)],["all observers compared with a fresh curve"])
R="curves_ros/src/"
p("C21","A trajectory message becomes the curve of the named joint",
 "Reading a ROS trajectory message for a joint (scalar joint trajectories, multi-DOF poses, multi-DOF translations) returns true and makes the curve the fit through the values of that joint at the times of the message's points, wherever the joint stands in the message and whatever the curve held before. A message that does not contain the joint, also one without any joints, returns false and leaves the curve unchanged.",
 ["histories","inputs"],"every message with a value of every joint at every point and increasing times, every asked name, every earlier content",
 "the ROS package has no tests and is not part of the tested build",
 [R+"RosJointTrajectoryInterface.cpp",R+"RosMultiDOFJointTrajectoryInterface.cpp",R+"RosMultiDOFJointTrajectoryTranslationInterface.cpp"],
 [("fromMessage: search of the joint and conversion of its points",R+"RosJointTrajectoryInterface.cpp"),("fromMessage",R+"RosMultiDOFJointTrajectoryInterface.cpp"),("fromMessage",R+"RosMultiDOFJointTrajectoryTranslationInterface.cpp")],
 ["return value of fromMessage, evaluation of the curve"])
p("C22","Reading changes nothing, also from several threads",
 "Evaluating or querying a curve, a spline container or a coefficient manager never changes it: every answer depends only on the object's current content and on the question, not on which questions were asked before, in which order, or at the same time. Any number of threads may read the same object at once while nobody edits it, and each gets the answer it would get alone.",
 ["schedules","histories"],"every order and interleaving of questions, between any edits, on every class",
 "the tests ask each object a few questions in one order from one thread",
 [E3,H3,MI,PC,I+"PolynomialSplineScalarCurve.hpp",I+"PolynomialSplineVectorSpaceCurve.hpp",S+"SlerpSE3Curve.cpp"],
 [("evaluate/evaluateDerivative (const)",E3),("getCoefficientsAt and listings (const)",MI),("get*AtTime (const)",PC)],
 ["answers compared with those of a new object of the same content that is asked nothing else"])
if __name__=="__main__":
    import pathlib
    out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
    out.write_text("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
    print(len(P))

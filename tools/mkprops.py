#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
CAL="third-parties/calendar/src"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

EUR="austria czechrepublic denmark finland france germany hungary iceland italy norway poland romania russia slovakia sweden switzerland target ukraine unitedkingdom".split()
AME="argentina australia botswana brazil canada chile mexico newzealand southafrica unitedstates weekendsonly".split()
ASI="china hongkong india indonesia israel japan singapore southkorea taiwan thailand turkey".split()
f=lambda l:[f"{CAL}/{x}.rs" for x in l]

p("C01","Every market classifies every day as exactly one of open or closed",
 "For every market and every day from 1901 to 2199 a calendar gives an answer without failing, a day is a holiday exactly when it is not a business day, and the answer seen through the library's own date type is the same as the one seen through the underlying calendar. Weekend days are the market's own weekend (Friday and Saturday in Israel, Saturday and Sunday elsewhere) and are never business days, except the officially transferred working Saturdays and Sundays of the Moscow exchange. Outside those years a calendar either fails loudly or gives answers that agree with each other in the same way.",
 ["inputs","configurations"],"all markets and market variants × all 109 207 days of 1901-2199, both calendar interfaces; sampled days of the rest of the representable range",
 "The tests visit a few hundred days of 2023 per market; neither totality over three centuries nor agreement of the two interfaces is observed.",
 [f"{CAL}/lib.rs","crates/qlab-time/src/calendar.rs"]+f(["israel","russia"]),
 [("default holiday/weekend methods",f"{CAL}/lib.rs"),("blanket implementation for the library date type","crates/qlab-time/src/calendar.rs")],
 ["is_business_day","is_holiday","is_weekend"])
p("C02","Easter dates are right for every supported year",
 "For every year 1901-2199 the Western and the Orthodox Easter Monday reported by a calendar, as day of the year, are the Mondays given by the Gregorian and the Julian computus. For years outside that range the answer is either still the computus date or a loud failure, never a wrong date.",
 ["inputs"],"every year 1901-2199 for both computations, plus years far outside the range",
 "Two 299-entry tables carry the dates; the tests exercise the entries of one or two years.",
 [f"{CAL}/lib.rs"],[("Easter tables and their lookup",f"{CAL}/lib.rs")],["easter_monday","orthodox_easter_monday"])
def region(id,name,mods,extra):
    p(id,f"{name} markets close exactly on their published holidays",
     f"For every {name} market the library offers and every day of 1901-2199, the day is a business day exactly when it is not in the market's weekend and not one of its published closings: {extra}. No closing is missing and no other weekday is closed.",
     ["inputs","configurations"],f"all days 1901-2199 × the {len(mods)} {name} calendars and all their market variants",
     "Each calendar has a table test of a single year (mostly 2023); moving a fixed date in another weekday pattern, an era boundary, or any other year's one-off date is invisible to it.",
     f(mods)+[f"{CAL}/lib.rs"],[("per-market holiday rules",f"{CAL}/{m}.rs") for m in mods],["is_business_day"])
region("C03","European",EUR,"fixed-date holidays with that market's substitution rule for weekends, weekday-of-month holidays, feasts counted from Western or Orthodox Easter, each with its first and last year, and the one-off closings and working days")
region("C04","American, African and Oceanian",AME,"fixed-date holidays with that market's observance shifts, n-th-weekday holidays, Easter feasts, each with its first and last year, and the one-off closings (funerals, storms, coronations, jubilees, Matariki)")
region("C05","Asian and Middle Eastern",ASI,"fixed-date holidays with their substitution rules and era limits, equinoxes, and the listed lunar, Islamic, Hebrew and Buddhist feast days and one-off closings of the years the library tabulates")
p("C06","Choosing a market variant changes exactly that variant's rules",
 "A calendar with no market chosen behaves as its documented default market (settlement, except the Frankfurt exchange for Germany) on every day. Variants stand in their documented relation on every day: the three London markets coincide, Frankfurt and Xetra coincide while Eurex additionally closes on 31 December and Euwax on Whit Monday, the Brazilian exchange, Canadian settlement and Australian settlement calendars close at least whenever their sibling does, SOFR closes at least whenever the US government-bond market does, and Libor differs from US settlement only in not moving Independence Day since 2015.",
 ["inputs","configurations"],"all multi-market calendars, all variants including none, all days 1901-2199",
 "The tests compare a variant with a hand-made list for one year and rarely construct the default.",
 f("australia austria brazil canada france germany italy russia unitedkingdom unitedstates".split()),
 [("market selection",f"{CAL}/unitedstates.rs"),("market selection",f"{CAL}/germany.rs")],["is_business_day"])
p("C07","A joint calendar is open exactly when both parts are",
 "For any two calendars, nested to any depth, the joint calendar has a business day exactly when both parts have one and a weekend day exactly when either part has one. Every derived answer (holidays, business-day counts, ends of month) is that of the intersection, and the order of the parts is irrelevant.",
 ["inputs","configurations"],"pairs and nested triples of all markets and of arbitrary user-written calendars, all days",
 "There is no test of joint calendars.",
 [f"{CAL}/jointcalendar.rs"],[("conjunction of the parts",f"{CAL}/jointcalendar.rs")],["is_business_day","is_weekend"])
p("C08","Business-day counts equal a day-by-day count",
 "The number of business days between two dates is the number of business days in the interval, the earlier endpoint included unless excluded on request and the later endpoint excluded unless included on request; it is never negative for ordered endpoints and changes only its sign when the endpoints are swapped. Adjacent intervals add up.",
 ["inputs","configurations"],"all calendars, arbitrary date pairs (equal, adjacent, years apart, reversed), all nine settings of the two flags",
 "One test, one calendar, one month, default flags.",
 [f"{CAL}/lib.rs"],[("counting loop with inclusion flags",f"{CAL}/lib.rs")],["business_days_between"])
p("C09","Ends of month are the last calendar and last business day",
 "For any date the last day of its month is the final calendar day of that month, leap years and December included, whatever the calendar. The business end of month is the latest business day on or before it, even when closings run across the month boundary.",
 ["inputs","configurations"],"every month of years 1-9999 for the calendar day; every month of 1901-2199 × all calendars, and calendars with arbitrary closing patterns, for the business day",
 "Not tested beyond a couple of dates.",
 [f"{CAL}/lib.rs"],[("month-end computation and backward search",f"{CAL}/lib.rs")],["last_day_of_month","end_of_month"])
p("C10","Calendars written by users get consistent derived answers",
 "A calendar that supplies only its business days, or also its own weekend or holidays, gets every other answer consistent with them on every representable day: a holiday is a day that is not a business day, weekends default to Saturday and Sunday, a date splits into its true day, weekday, month, year and day of the year, and Easter Mondays are those of the computus. Month ends and business-day counts follow the user's own rules, directly, behind a trait object or as part of a joint calendar, and consult them only on days inside the counted interval or in the month concerned and the days down to the answer, so none of them fails at either end of the date range.",
 ["inputs","configurations"],"arbitrary user rules × six ways of implementing a calendar × intervals and month ends anywhere in the representable range and at both ends of it, with the rules' consultations recorded and failing outside the interval",
 "No test implements a calendar.",
 [f"{CAL}/lib.rs",f"{CAL}/jointcalendar.rs","crates/qlab-time/src/calendar.rs"],[("default methods",f"{CAL}/lib.rs"),("default holiday method and blanket implementation","crates/qlab-time/src/calendar.rs")],["naive_date_to_dkmy","is_weekend","is_holiday","last_day_of_month","end_of_month","business_days_between"])
D="crates/qlab-time/src/date.rs"
p("D01","Dates are faithful proleptic Gregorian dates",
 "A date can be built from year, month and day exactly when that day exists, and then reports the same year, month, day, leap-year status, ISO text and day number counted from 1 January of year 1. Ordering, equality, hashing, day differences and the next and previous day all agree with that day number over the whole representable range.",
 ["inputs"],"all (year, month 0-14, day 0-33) combinations over centuries, random dates of the full ±262 000-year range, ordered pairs",
 "Tests check two or three literal dates.",
 [D],[("thin wrapper over the civil-date library",D)],["from_ymd","serial_date","subtraction","Display"])
p("D02","Adding days, months and years lands on the right date or on none",
 "Adding or subtracting days moves the day number by exactly that amount; months move the year and month and keep the day of the month, clamped to the target month's last day; years keep month and day, with 29 February going to 28 February in common years. When the result is not representable the answer is none: never a panic, a wrap-around or another date, however large the amount, and the three period types act identically whether added directly or through an unadjusted roll.",
 ["inputs"],"random and boundary dates × amounts from zero to the type limits, both signs where allowed",
 "Handful of literal dates; no overflow, no boundary of the range, few month-length combinations.",
 [D,"crates/qlab-time/src/period/days.rs","crates/qlab-time/src/period/months.rs","crates/qlab-time/src/period/years.rs"],
 [("checked additions",D),("period dispatch","crates/qlab-time/src/period.rs")],["checked_add_*","checked_sub_*"])
p("D03","The weekend roll moves weekend dates to Monday and nothing else",
 "Rolling a date off the weekend returns the date itself from Monday to Friday and the immediately following Monday for Saturday and Sunday, also across month and year ends. At the end of the representable range it returns none rather than failing.",
 ["inputs"],"every day of several centuries, month/year ends, range limits",
 "A few literal dates.",
 [D,"crates/qlab-instrument/src/bond.rs"],[("weekend roll",D)],["weekend_roll"])
p("D04","Date rolling obeys the five business-day conventions",
 "After adding the period: unadjusted returns that date; following and preceding return the nearest business day on or after, respectively on or before it; the modified conventions do the same unless that leaves the calendar month of the unadjusted date, in which case they go the other way. A date that is already a business day is never moved, every adjusted result is a business day of the given calendar, and the search consults only days between the unadjusted date and the days it must skip.",
 ["inputs","configurations"],"all five conventions × random periods, built in and user-written, and dates × all markets and arbitrary closing patterns, especially closings that straddle month ends, with the calendar's own calls monitored",
 "One or two conventions with one market and one date.",
 [D,"crates/qlab-time/src/date_rolling.rs","crates/qlab-time/src/calendar.rs"],[("recursive roll",D)],["checked_roll"])
p("D05","Day-count fractions follow their convention exactly",
 "Actual/360 and Actual/365 return the exact signed number of days divided by 360 or 365, correctly in single and double precision, so they are additive over adjacent periods and change sign with the order of the dates. 30/360 returns (360·Δyear + 30·Δmonth + Δday)/360 with days 31 counted as 30, refuses reversed dates with an invalid-input error naming both, and none of them panics for any pair of dates.",
 ["inputs","configurations"],"random and boundary date pairs, all three conventions, both precisions",
 "One date pair per convention with a loose tolerance.",
 ["crates/qlab-time/src/day_count/act_360.rs","crates/qlab-time/src/day_count/act_365.rs","crates/qlab-time/src/day_count/thirty_360.rs"],
 [("fraction formulas","crates/qlab-time/src/day_count")],["calculate_day_count_fraction"])
M="crates/qlab-math/src/interpolation"
allm=[f"{M}.rs",f"{M}/linear.rs",f"{M}/spline/natural_cubic.rs",f"{M}/spline/catmull_rom.rs",f"{M}/spline/hermite.rs"]
p("M01","Interpolants pass through their data",
 "Every successfully fitted interpolant (linear, natural cubic, Catmull-Rom, Hermite) returns the given ordinate at each given abscissa, and stays continuous there when approached from either side. This holds for any number of strictly ascending knots, any spacing, both precisions.",
 ["inputs","configurations"],"random, uneven, clustered, tiny, huge and negative knot sets from the minimum size to hundreds of knots; all four methods; both precisions",
 "One knot set with 3-5 points per method.",
 allm,[("segment lookup and per-segment evaluation",f"{M}.rs")],["try_value"])
p("M02","Interpolants answer exactly on their domain and never extrapolate",
 "A fitted interpolant returns a value for every abscissa between its first and last knot inclusive. Below the first knot it returns the out-of-lower-bound error and above the last one the out-of-upper-bound error, each carrying the queried abscissa; unfitted interpolants report insufficient points; nothing panics, also for infinite or not-a-number queries.",
 ["inputs","configurations"],"queries at, one ulp inside and one ulp outside both ends, infinities and NaN, interior points; all methods; both precisions",
 "Tests query inside the domain and one value outside.",
 allm,[("left-boundary search",f"{M}.rs")],["try_value"])
p("M03","Unusable interpolation data are refused when fitting",
 "Data of two or more points whose abscissae are not strictly ascending, whether out of order, repeated or not a number, at any position, are refused with the point-order error by every method. Splines also refuse fewer than three points with the insufficient-points error stating how many were given; data that satisfy both are always accepted; fitting never panics.",
 ["inputs","configurations"],"valid sets mutated by swaps, not-a-number abscissae, repetitions at the start, middle and end, truncations to 0-3 points; all methods; both precisions",
 "One unsorted example for some of the methods, no repeated knots.",
 allm,[("validation while fitting",f"{M}/linear.rs"),("validation while fitting",f"{M}/spline/natural_cubic.rs")],["try_fit","try_new"])
p("M04","Linear interpolation is the chord between neighbouring knots",
 "Between two neighbouring knots the linear interpolant equals the straight line through them, so it stays within their two ordinates, is monotone between them, and is unaffected by any other knot. With a single knot it is defined at that abscissa only.",
 ["inputs","configurations"],"random knot sets and abscissae, both precisions, single-knot fits",
 "One knot set.",
 [f"{M}/linear.rs",f"{M}.rs"],[("chord formula",f"{M}/linear.rs")],["try_value"])
p("M05","The natural cubic spline is the natural cubic spline",
 "The fitted curve is the unique piecewise cubic through the knots with continuous first and second derivatives and zero second derivative at both ends. In particular straight-line data give back the line, for three knots as for hundreds.",
 ["inputs","configurations"],"random even and uneven knot sets from 3 to hundreds of points, both precisions",
 "One five-point and one small linear-system example with fixed expected values.",
 [f"{M}/spline/natural_cubic.rs","crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs"],
 [("tridiagonal system for the second derivatives",f"{M}/spline/natural_cubic.rs"),("Thomas elimination","crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs")],["try_value"])
p("M06","The Hermite spline honours values and slopes",
 "On each interval the Hermite curve is the cubic determined by the ordinates and slopes given at its two ends, so it is continuously differentiable with the prescribed slope at every knot and reproduces any cubic whose values and slopes are supplied. Knots outside the interval have no influence.",
 ["inputs","configurations"],"random knots, values and slopes, both precisions",
 "One knot set, evaluated at a few points.",
 [f"{M}/spline/hermite.rs"],[("Hermite basis",f"{M}/spline/hermite.rs")],["try_value"])
p("M07","The Catmull-Rom spline uses neighbour-chord slopes",
 "On each interval the curve is the Hermite cubic whose slope at an interior knot is the slope of the chord through its two neighbours and whose slope at the first and last knot is that of the adjoining chord; hence it is continuously differentiable and reproduces straight lines for any spacing. Only the two knots on either side influence an interval.",
 ["inputs","configurations"],"random even and uneven knot sets, every interval class (first, interior, last), both precisions",
 "One four-point set whose last-interval expectation is itself wrong.",
 [f"{M}/spline/catmull_rom.rs"],[("first / interior / last segment matrices",f"{M}/spline/catmull_rom.rs")],["try_value"])
p("M08","Interpolation commutes with changes of units and precision",
 "For every method, scaling or shifting the ordinates scales or shifts the result, adding two data sets adds the results, shifting or scaling the abscissae (by powers of two) leaves the curve unchanged, and mirroring the data mirrors the curve. The single-precision result agrees with the double-precision one to single precision, and refitting or querying in any order never changes an answer.",
 ["inputs","histories","configurations"],"random knot sets, transformations and query orders, all methods, both precisions",
 "No test relates two fits.",
 allm,[("generic evaluation",f"{M}.rs")],["try_fit","try_value"])
Y2="crates/qlab-termstructure/src/yield_curve.rs"
B2="crates/qlab-instrument/src/bond.rs"
D2="crates/qlab-time/src/day_count.rs"
p("M09","Numeric components work in the caller's own number type",
 "Interpolation, day counts, yield curves and bonds accept any number type that implements the library's value trait and compute in that type's own arithmetic and ordering: an extended-precision type gets all its digits, a differentiating type gets the exact sensitivities of interpolated values, discount factors and bond prices to knots, quotes, times, rate and face, and domain and order checks distinguish values that no built-in type can tell apart.",
 ["inputs","configurations"],"random data sets, dates, markets and bonds over a user-defined type carrying 31 digits and a derivative, all methods and day counts",
 "Every test uses f64 (or f32), so nothing notices a detour through a built-in type.",
 allm+[Y2,B2,D2],[("value trait","crates/qlab-math/src/value.rs"),("generic evaluation",f"{M}.rs"),("generic discounting",Y2),("generic cash flows",B2)],["Value","try_fit","try_value","calculate_day_count_fraction","discount_factor","discounted_value"])
Y="crates/qlab-termstructure/src/yield_curve.rs"
p("T01","Discount factors come from the quoted continuous yields",
 "The discount factor from the settlement date to a date is exp(−t·y), with t the curve's own day-count fraction from settlement and y the interpolated yield at t, so every quoted maturity is repriced by its own quote. The interpolator is fitted once with exactly the pairs (t, quote) in the given order, and evaluated only at the times needed.",
 ["inputs","configurations"],"random quotes, maturities and dates × three day counts and a user-written one × four interpolators including a recording one, both precisions",
 "One flat curve and one three-month check.",
 [Y],[("curve construction and discount formula",Y)],["new","discount_factor"])
p("T02","Forward discount factors are consistent across dates",
 "The factor between two dates on or after settlement is the ratio of their factors from settlement, so factors over adjacent periods multiply, a zero-length period gives one, factors are positive, and with non-negative forward rates they never exceed one. The result depends only on the curve and the two dates, not on earlier queries.",
 ["inputs","histories","configurations"],"random date triples on random curves, query sequences in random order",
 "No test combines two factors.",
 [Y],[("two-date discount formula",Y)],["discount_factor"])
p("T03","Curves refuse unusable quotes and dates",
 "A curve is refused when the numbers of maturities and yields differ or the day count or interpolator refuses the data, and a discount factor is refused with an invalid-input error when the end precedes the start or either date precedes settlement, and with an interpolation error outside the quoted range. A refusal is always an error value, never a panic or a number, and acceptable input is never refused.",
 ["inputs","configurations"],"every mismatched length, order and range combination around valid curves",
 "One or two error examples.",
 [Y,"crates/qlab-error/src/lib.rs"],[("input checks",Y),("error conversion","crates/qlab-error/src/lib.rs")],["new","discount_factor"])
B="crates/qlab-instrument/src/bond.rs"
p("B01","A bond pays on its schedule",
 "The due dates are the first coupon date plus whole multiples of six months (each with the first date's day of the month, clamped to the month's length) up to and including the penultimate coupon date, followed by maturity; there are no others. Regular coupons are discounted from the due date moved off the weekend to the next Monday, the final payment from maturity itself.",
 ["inputs","configurations"],"random issue, first, penultimate and maturity dates incl. month ends, leap days, short and long stubs; schedule read off the discounting requests",
 "One 20-year bond whose dates never fall on a month end.",
 [B],[("schedule loop",B),("final cash flow",B)],["Bond::new","discounted_value"])
p("B02","Coupon amounts are regular except for prorated stubs",
 "A regular coupon pays rate × face / 2. A short first or final period pays the fraction of days of its regular period, a long one, however long, pays a full coupon plus the days beyond its regular period over the length of the neighbouring regular period, and the final payment also returns the face amount.",
 ["inputs","configurations"],"random bonds in all nine stub combinations, random rates and faces, both precisions; individual amounts isolated by the curve",
 "Two bonds with expected prices; the stub branches are mostly not taken.",
 [B],[("first stub",B),("final stub",B)],["discounted_value"])
p("B03","A bond's value is the sum of its discounted future payments",
 "The value on a date is the sum, over the payments whose due date lies strictly after that date, of the discount factor from that date to the payment date times the amount; payments already due contribute nothing, and after maturity the value is zero. It is linear in face and in rate, additive over curves' discount factors, and unaffected by earlier valuations; any discounting refusal is passed on unchanged.",
 ["inputs","histories","configurations"],"random bonds × settlement dates before, on and after each due and payment date × curves with all day counts and interpolators, including refusing ones",
 "One price on one date.",
 [B,Y],[("valuation sum",B)],["discounted_value"])
p("B04","Bonds that cannot be scheduled are refused, others accepted",
 "Building a bond never panics or hangs: it yields none when the schedule has no regular coupon although a stub must be prorated or when a needed date is not representable, and a bond otherwise. An accepted bond keeps the identifier it was given.",
 ["inputs"],"arbitrary orders and distances of the four dates, including reversed, equal and range-limit dates",
 "Only well-formed bonds are built.",
 [B],[("optional construction",B)],["Bond::new","bond_id"])
p("R01","All answers are pure and safe to ask for concurrently",
 "Every calendar, date, day-count, interpolation, curve and bond answer depends only on its arguments and the object's construction: repeating it, interleaving it with any other queries in any order, or asking from many threads sharing the same objects gives bit-for-bit the same answer. All these objects can be shared between and moved across threads.",
 ["schedules","histories"],"random interleavings of thousands of queries over all components, sequentially and on many threads sharing objects, with injected yields; plus a thread-sanitizer build of the same workload where available",
 "Every test asks each question once, in one thread.",
 [f"{CAL}/lib.rs",D,f"{M}.rs",Y,B],[("absence of shared mutable state; unsafe code forbidden","Cargo.toml")],[])
p("R02","Refusals say what was wrong",
 "Each refusal carries the kind of error that happened and its text names the offending value: the queried abscissa for bounds errors, the number of points for too few points, the two dates in their places for reversed dates, the mismatch for unequal lengths. Converting an interpolation refusal into the library-wide error keeps it recognisable as one.",
 ["inputs"],"all reachable error kinds with random offending values, both precisions",
 "Tests mostly check only that something failed.",
 ["crates/qlab-error/src/lib.rs",Y,"crates/qlab-time/src/day_count/thirty_360.rs"],[("error types and messages","crates/qlab-error/src/lib.rs")],["Display"])
p("R03","Hostile arguments never crash or hang the library",
 "For any dates of the representable range (first and last included), any period lengths, any finite, infinite or not-a-number figures and any knot or quote lists, the date, day-count, interpolation, curve and bond operations return a value, none or an error. They do so without panic, arithmetic overflow, memory error or unbounded work; calendar questions about any date commit no memory error either.",
 ["inputs","configurations"],"type limits, range limits, special floating-point values and degenerate lists in all combinations, under overflow checks and a step budget; everyday questions under the address sanitizer, the memory sanitizer and an interpreter",
 "Tests use ordinary values only, and release builds would hide overflow.",
 [D,"crates/qlab-time/src/day_count/thirty_360.rs",f"{M}.rs",Y,B],[("checked arithmetic and error returns",D)],[])
p("R04","Asking leaves nothing behind",
 "Questions have no effect besides their answers. Asking the same questions again and again, refused ones included, and dropping the objects built for them never makes the memory in use grow round after round; and no question prints anything, leaves a thread running or a file open or created, or changes the environment, the working directory, the panic hook, the signal handling or the floating-point mode of the process.",
 ["histories","inputs"],"rounds of identical questions to every calendar, date, day-count, interpolation, curve and bond operation, valid and refused, under a counting allocator and a watch on the process's resources and output streams",
 "No test looks at anything but the returned value.",
 ["crates/qlab-error/src/lib.rs",f"{M}.rs",Y,B,"third-parties/calendar/src/lib.rs"],[("owned data only, no globals",f"{M}.rs")],[])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as fh:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        fh.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))

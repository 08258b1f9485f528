"""Writes properties.jsonl (kept as code so that the 21 records stay in one editable place)."""
import json, os
P = []
CORE = "ramp/core/core.py"; UT = "ramp/core/utils.py"; CO = "ramp/core/constants.py"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
GEN = ("Appliance.generate_load_profile", CORE)
p("C01", "Appliance power stays inside its functioning windows",
  "On every generated day an appliance's profile is nonzero only inside its functioning windows, whose edges are drawn independently within the declared window variability (that fraction of the window's own length) around the declared ones and never leave the day. With zero variability they are exactly the declared windows. Windows that come to cross or overlap behave as the union of what is left of them, and idle minutes inside a window carry only the tiny standby marker.",
  ["inputs", "configurations", "schedules"], "every declared set of 1-3 windows, every variability in [0,1], every outcome of the random draws",
  "the tests call the switch-on picker on hand-made free spots; no test looks at where the power of a generated day lies",
  [CORE], [("calc_rand_window, window masking in generate_load_profile", CORE)],
  [("daily_use", "the day's profile, 1440 values in W", CORE)], ["Appliance.daily_use after generate_load_profile"])
p("C02", "Daily on-time meets the declared functioning time",
  "On a day it is used, a non-flat appliance is on for a total equal to its functioning time within the declared time variability, raised to the minimum cycle length and capped at 99% of the available window minutes. The total is never exceeded, and it is missed only when no free stretch left in the windows can host another switch-on event of minimum length.",
  ["inputs", "configurations", "schedules"], "every functioning time, variability, minimum cycle, window layout and every outcome of the random draws",
  "one test bounds the randomised time for one window layout; none sums the minutes a generated day is really on",
  [CORE], [("rand_total_time_of_use and the switch-on loop of generate_load_profile", CORE)],
  [("rand_time / tot_time", "the day's time budget and what was used of it", CORE)], ["Appliance.daily_use"])
p("C03", "Switch-on events are disjoint, long enough and can start anywhere",
  "A day's on-time is made of switch-on events that never share a minute, never straddle the end of a window and each last at least the minimum cycle length, except for at most one event shortened to end exactly on the day's time budget (and events limited to one run of their duty cycle). Every start minute from which a minimum-length event still fits in a free stretch of any window can be chosen, and no other.",
  ["inputs", "schedules", "histories"], "every reachable sequence of switch-on events of a day, i.e. every outcome of the random draws",
  "tests check single picks from fixed free spots; the bookkeeping across successive events of one day is never exercised by an assertion",
  [CORE], [("rand_switch_on_window, update_available_time_for_switch_on_events", CORE)],
  [("free_spots", "stretches of the windows still free", CORE)], ["Appliance.daily_use"])
p("C04", "Switched-on power is whole units of the day's rating",
  "Without duty cycles, the power during each switch-on event is constant and equals k times that day's power rating times one factor within the declared power variability, where k is a whole number from 1 to the number of appliances. With no power variability the values are exact multiples of the day's rating, and appliances declared to always switch on together always use all units.",
  ["inputs", "configurations", "schedules"], "every number, rating (constant or one value per day), variability and every outcome of the random draws",
  "tests check the number of coincident units in isolation, never the power written to a generated profile, nor day-varying ratings",
  [CORE, UT], [("update_daily_use, random_variation, calc_coincident_switch_on", CORE)], [], ["Appliance.daily_use"])
p("C05", "Coincident units follow the on-peak and off-peak rules",
  "A switch-on event that overlaps the peak time range switches on the rounded-up value of a normal draw with mean half the number of appliances and deviation a quarter of it, limited to 1..number; an event fully outside it switches on one more than a single uniform draw on 0..number-1/2 rounded down. Whether an event counts as on-peak depends only on its own minutes and the peak time range in force.",
  ["inputs", "schedules"], "every position of an event relative to the peak range and every value of the underlying draws",
  "the statistical test checks one N on-peak; the off-peak rule and the peak/off-peak decision for events near the range's edges are untested",
  [CORE, UT, CO], [("calc_coincident_switch_on, within_peak_time_window, switch_on_parameters", CORE)], [], ["Appliance.daily_use under pinned random draws"])
p("C06", "Appliances run only on the days they are eligible for",
  "An appliance limited to weekdays or weekends is all-zero on every day of the other kind, and one with zero functioning time or an occasional use of zero never runs; otherwise a day is skipped exactly when the daily draw exceeds the occasional use. Each single user draws one meal preference per day from 1..its number of preferences, and of that user's appliances tied to a preference exactly those tied to the drawn one may run.",
  ["inputs", "configurations", "schedules"], "every combination of day type, occasional use, preference index, number of users and every draw",
  "only the zero functioning time case is tested",
  [CORE], [("skip conditions of generate_load_profile; daily preference in generate_single_load_profile", CORE)],
  [("rand_daily_pref", "preference drawn for the single user and day", CORE)], ["Appliance.daily_use, aggregated load"])
p("C07", "Flat appliances run at full constant power in their windows",
  "On a day it is used, a flat appliance draws exactly the number of appliances times that day's rating during every minute of its (randomised) windows and nothing elsewhere, with no other randomness.",
  ["inputs", "configurations", "schedules"], "every flat appliance, window layout, day-varying rating and day index",
  "no test generates a flat appliance", [CORE], [("flat branch of generate_load_profile", CORE)], [], ["Appliance.daily_use"])
p("C08", "Duty cycles are reproduced minute by minute",
  "With duty cycles, every switch-on event replays, from its first minute, the two-part cycle whose window the event falls in (first matching cycle; one set of randomised part lengths and powers per day within the declared variabilities; for three cycles each possibly with its parts swapped), multiplied by the event's number of units. A continuous cycle repeats to fill the event, a non-continuous one limits the event to one cycle, and no event ever starts where no cycle's window is touched.",
  ["inputs", "configurations", "schedules"], "every number of cycles 1-3, durations, powers, cycle windows, modes and every draw",
  "one test counts the switch-ons of one appliance; values, repetition and cycle selection are unchecked",
  [CORE, UT], [("assign_random_cycles, duty_cycle, random_choice, cycle selection in rand_switch_on_window, update_daily_use", CORE)],
  [("random_cycle1..3, current_duty_cycle_id", "the day's cycles and the one selected", CORE)], ["Appliance.daily_use"])
p("C09", "Community load is the sum of all its users' appliances",
  "For every day, the use case profile equals minute by minute the sum over user types, over each of their single users independently, and over all their appliances of that appliance's profile for that day; no contribution is lost, duplicated, carried over from another day or shared between single users. Output has one row of 1440 minutes per day in calendar order, and the flat form is exactly those rows one after the other.",
  ["inputs", "configurations", "schedules"], "every set of user types, single-user counts, appliances and number of days",
  "no test compares an aggregated profile with its parts",
  [CORE], [("generate_daily_load_profiles, generate_aggregated_load_profile, generate_single_load_profile", CORE)],
  [("User.load", "the user type's aggregated load of the day", CORE)], ["UseCase.generate_daily_load_profiles return value, User.load"])
p("C10", "Parallel generation obeys the sequential model",
  "With parallel processing, whatever order workers finish in, every (day, single user, appliance) is computed exactly once and added to its own day, and any result is one that sequential generation could also have produced, including each single user's one shared preference per day; deterministic models give the identical profile.",
  ["schedules", "configurations", "inputs"], "every interleaving of workers, every number of tasks and users",
  "the notebook runs parallel mode without checking its output; no test compares the two modes",
  [CORE], [("generate_daily_load_profiles_parallel, single_appliance_daily_load_profile", CORE)],
  [("task list, per-day accumulation", "work distributed to the pool", CORE)], ["return value with parallel_processing=True"])
p("C11", "The same seed reproduces the same result",
  "Two use cases built from the same model with the same random seed and driven by the same calls give bit-identical peak time ranges and load profiles, whatever random numbers were consumed before, however the dates were given, for every integer seed including zero, and in parallel mode as well. Without a seed the generator's state is left as it was.",
  ["histories", "inputs", "schedules"], "every seed, prior history of random draws, way of initialising, and execution mode",
  "the notebook plots two seeded runs built one after the other without asserting equality",
  [CORE], [("UseCase.__init__ seeding", CORE)], [], ["peak_time_range, generate_daily_load_profiles"])
p("C12", "Simulated days are exactly the ones requested",
  "The simulated days are the consecutive calendar days fixed by the given start date, end date and number of days (both dates: the whole inclusive range unless a different number is asked for, then that many from the start; one date: that many days from or up to it), one timestamp per minute. A use case keeps its days until re-initialisation is forced, and then follows the values set by then; each day is treated as weekday or weekend by its calendar date and uses its own entry of every power series.",
  ["histories", "inputs"], "every sequence of construction, date changes and (forced) initialisations",
  "no test checks days, re-initialisation or the weekday mapping",
  [CORE, UT], [("UseCase.initialize, datetimeindex, get_day_type", CORE)],
  [("days, num_days, datetimeindex, is_initialized", "simulation calendar", CORE)], ["days, num_days, datetimeindex, profile length"])
p("C13", "Peak time range comes from the community's maximum demand",
  "The peak window is the set of minutes at which the theoretical maximum demand of all users (each appliance at mean power, full number, in all its declared windows, times the users of its type) is highest, even when that is a single minute. The peak time is a normal draw around the middle of that window with a third of its extent as deviation, and the range is the minutes from peak time minus to peak time plus a half-width of at least one minute set by a draw scaled by the enlargement setting; it never depends on profiles generated before.",
  ["inputs", "histories", "schedules"], "every community, every enlargement value and every value of the draws",
  "the only test of it is commented out",
  [CORE], [("calc_peak_time_range, maximum_profile", CORE)], [("peak_time_range", "range used to discriminate peak events", CORE)], ["UseCase.peak_time_range, maximum_profile"])
p("C14", "A saved model loads back identical",
  "Saving a use case (users with distinct names, at least one appliance each, declared windows) to a spreadsheet and loading it gives the same users in the same order with the same counts and preferences, each with the same appliances in order, with every parameter (windows, duty cycles, constant or 366-day power to 16 digits, names) unchanged, so a second save gives the same table. The exported table has one row per appliance and states exactly the model's parameters.",
  ["inputs", "histories"], "every model that can be built through the public interface, any number of round trips",
  "three example files are compared with an equality that ignores most of their content",
  [CORE, UT, CO], [("save, load, read_input_file", CORE)], [], ["UseCase.save, UseCase.load"])
p("C15", "Spreadsheet inputs are interpreted as documented",
  "For every optional parameter left empty in an input spreadsheet the documented default is used; power may be one number, a 366-value JSON array, or a reference to a 366-row range of one (values) or two (timestamps, values) columns of any other sheet, and day i then uses value i. Series of any other size or shape, unparsable power, and user types whose rows disagree on the number of users or preferences are rejected with an error and never silently altered.",
  ["inputs"], "every spreadsheet with any subset of optional cells empty and any power format",
  "tests only load files written by the tool itself with all cells filled",
  [CORE, UT], [("read_input_file, UseCase.load", UT)], [], ["attributes of the loaded users and appliances"])
p("C16", "However a model is built, the same declaration gives the same model",
  "Declaring an appliance positionally, by keyword, in one call, through separate window and cycle calls, or through the legacy call gives the same parameters, with the documented defaults for what is not given. Two appliances (and two users) compare equal exactly when all their parameters are equal; adding one already present does not duplicate it while different ones are all kept in order. Missing declared windows, windows shorter than the functioning time, power of the wrong type or shorter than the simulated days, and non-users added to a use case are rejected with an error.",
  ["inputs", "histories"], "every order of builder calls and every parameter combination",
  "tests compare a few fixed appliances; a handful of parameters and orders are covered",
  [CORE, CO], [("add_appliance, Appliance, windows, specific_cycle*, cycle_behaviour, __eq__, add_user, check_power_values", CORE)], [], ["parameters of the built objects, raised errors"])
p("C17", "Generating profiles never changes the model",
  "Generating any number of days, users or appliances leaves the model as it was: the exported parameters, the theoretical maximum profiles, the day list and the set of possible later results are the same before and after, for the object and for every other object in the program.",
  ["histories"], "every sequence of generation calls interleaved with exports and re-initialisation",
  "no test generates twice from one object and looks at the model",
  [CORE], [("generate_load_profile and everything it calls; maximum_profile", CORE)], [("daily_use, free_spots, random_cycle*", "per-day working state kept on the appliance", CORE)], ["save, maximum_profile, repeated generation"])
p("C18", "The command line simulates the requested files, days and outputs",
  "Each input spreadsheet given on the command line is simulated with its own number of days and written to its own output file (a single number or output applying to all), for the days implied by the number of days, start date, end date or years given, with missing ends completed to the calendar year. Contradictory or mismatching options are rejected before anything is simulated. Year mode with a folder needs exactly twelve files, applies them to the months in numeric order, and writes to its one output one value per minute of that year plus the hourly mean, maximum and minimum.",
  ["inputs", "configurations"], "every combination of options and file sets",
  "tests check that five combinations run or raise, never what was simulated or written",
  ["ramp/cli.py", "ramp/ramp_run.py", "ramp/post_process/post_process.py"], [("main, run_usecase, export_series", "ramp/cli.py")], [], ["output files, raised errors"])
p("C19", "Converting a legacy Python input keeps the model",
  "Converting a Python input file produces, wherever the file lies and however often it is converted, a spreadsheet that loads to the same users and appliances, with appliances named after their variables when names are requested, at the requested place and with the requested suffix. The input file stays a valid input defining the same model and is not altered further by later conversions.",
  ["inputs", "histories"], "every location and number of conversions of a legacy input file",
  "the test compares with an equality that does not look at the content and only uses files inside the package",
  ["ramp/ramp_convert_old_input_files.py", CORE], [("convert_old_user_input_file", "ramp/ramp_convert_old_input_files.py")], [], ["written xlsx, input file content"])
p("C20", "Every valid model yields complete profiles or the documented error",
  "For every model whose parameters lie in their documented ranges and that was accepted when built, generation terminates with a complete, finite, non-negative profile for each day; the only permitted failure is the documented error saying that the minimum cycle does not fit into the available window time, and only when it really does not fit.",
  ["inputs", "configurations", "schedules"], "every combination of parameters in the documented ranges and every outcome of the draws",
  "tests use a handful of benign parameter sets; crashes and endless re-picks need corner values or unlucky draws",
  [CORE, UT], [("the whole generation path", CORE)], [], ["return value or exception of the generation calls"])
p("C21", "Exported results keep every value at its minute",
  "Formatting and exporting profiles writes every minute of every day once, in order, to the requested file; averages, sums, resampling, selection, added columns, duration curves, percentage errors, peaks and the plots of them computed on results equal those of the underlying values, and results written to csv or Excel read back equal. Operations that return new results leave the original untouched, and misaligned columns or unknown formats are rejected.",
  ["inputs", "histories"], "every result table and every sequence of operations on it",
  "no test touches the result classes",
  ["ramp/post_process/post_process.py", CORE], [("Profile_formatting, export_series, Plot", "ramp/post_process/post_process.py")], [], ["written files, Plot data"])
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
print(len(P))

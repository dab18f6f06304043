"""C36: outputs show the elements and amounts of their step"""
import csv
import datetime as dt
import glob
import os
import shutil
import tempfile

from symex.case import Case, Property
from symex import outenc
from props.lib import BASE, small_oil

INFO = {
    'functions': ['TrajectoryGeoJsonOutput.write_output', 'TrajectoryGeoJsonOutput.output_to_file',
                  'TrajectoryGeoJsonOutput.clean_output_files', 'SpillJsonOutput.write_output',
                  'WeatheringOutput.write_output', 'WeatheringOutput.output_to_file', 'OilBudgetOutput.write_output',
                  'OilBudgetOutput.prepare_for_model_run', 'BinaryOutput.write_output', 'BinaryOutput.output_to_file',
                  'BaseMassBalanceOutputter.gather_mass_balance_data', 'Outputter.__init__', 'Model.step'],
    'bounds': 'runs of three or four steps of two spills, the second releasing a step later, with and without an uncertain '
              'container; any amount, any displacement and any loss of each element at each step, any of the statuses; '
              'rounding to 2, 4 or no digits; output on or off, the last step written or not, files of an earlier run '
              'present',
    'outside': 'netCDF, shape, KMZ and image files; contours and hulls; surface concentration; rounding by the number '
               'format itself (8 digits in the budget, 32-bit floats)',
    'stubs': ['a mover and a weatherer with any effect', 'numbers in files: marks that read back as the same value'],
    'assumptions': [],
}
STATUS = (2, 3, 10, 32)


def parts(cx, status):
    from gnome.movers import Mover
    from gnome.weatherers.core import Weatherer
    from gnome.array_types import gat

    class Any(Mover):
        k = 0

        def get_move(self, sc, ts, t):
            self.k += 1
            if sc.uncertain:                # not weathered
                for i in range(len(sc)):
                    sc['mass'][i] = cx.real('umass%d_%d' % (self.k, i), 1 / 1024, 1000)
            return cx.array([[cx.real('dx%d_%d' % (self.k, i), -1, 1), cx.real('dy%d_%d' % (self.k, i), -1, 1),
                              0.25 * self.k + i] for i in range(len(sc))])

    class Takes(Weatherer):
        k = 0

        def __init__(self, **kw):
            super().__init__(**kw)
            self.array_types.update({a: gat(a) for a in ('mass', 'mass_components', 'init_mass')})

        def prepare_for_model_run(self, sc):
            self.k = 0
            for i, n in enumerate(('evaporated', 'natural_dispersion')):
                sc.mass_balance[n] = 0.0

        def weather_elements(self, sc, ts, t):
            self.k += 1
            for n in ('evaporated', 'natural_dispersion'):
                sc.mass_balance[n] = cx.real('%s%d' % (n, self.k), 0, 1000)
            m = sc['mass']
            for i in range(len(m)):
                m[i] = cx.real('mass%d_%d' % (self.k, i), 1 / 1024, 1000)
            if status and len(m) and not sc.uncertain:
                sc['status_codes'][0] = cx.choice('status%d' % self.k, status)
    return Any, Takes


def scene(cx, outs, uncertain=False, status=(), steps=3, back=False, ts=900, amounts=False):
    from gnome.model import Model
    from gnome.spills.spill import Spill
    from gnome.spills.release import PointLineRelease
    Any, Takes = parts(cx, status)
    sgn = -1 if back else 1
    m = Model(start_time=BASE, time_step=ts, duration=dt.timedelta(seconds=ts * (steps - 1)), uncertain=uncertain,
              run_backwards=back)
    m.make_default_refs = False
    m.movers += Any()
    if not back:
        m.weatherers += Takes()
    oil = small_oil(1)
    for i in range(2):
        rel = PointLineRelease(release_time=BASE + dt.timedelta(seconds=sgn * ts * i), num_elements=1,
                               start_position=(float(i), 2.0 * i, 0.))
        m.spills += Spill(release=rel, substance=oil, amount=cx.real('amount%d' % i, 1 / 8, 1000) if amounts else 64. + 32 * i,
                          units='kg')
    for o in outs:
        m.outputters += o
    return m


class State:
    """the elements of one container at one step"""

    def __init__(self, sc):
        self.pos = [[x for x in p] for p in sc['positions']]
        self.mass = [x for x in sc['mass']]
        self.status = [int(x) for x in sc['status_codes']]
        self.spill = [int(x) for x in sc['spill_num']]
        self.age = [int(x) for x in sc['age']]
        self.balance = dict(sc.mass_balance)
        self.n = len(self.mass)
        self.uncertain = sc.uncertain
        self.time = sc.current_time_stamp


def run(cx, m):
    """(result of the step, states) for every step"""
    while True:
        try:
            r = m.step()
        except StopIteration:
            return
        yield m.current_time_step, r, [State(sc) for sc in m.spills.items()]


def near(cx, a, b, digits):
    return cx.close(a, b, 0.500001 * 10.0 ** -digits)


def features(cx, st, fs, digits, label):
    cx.prove(len(fs) == st.n, label + ': one entry for each element')
    nd = min(digits, 6)                     # geojson keeps six digits of coordinates
    for i, f in enumerate(fs[:st.n]):
        p = f['properties']
        c = f['geometry']['coordinates']
        cx.prove(f['geometry']['type'] == 'Point' and len(c) == 2, label + ': a point')
        for j in range(2):
            cx.prove(near(cx, c[j], st.pos[i][j], nd), label + ': where the element is')
        cx.prove(cx.close(p['mass'], st.mass[i], 0.500001 * 10.0 ** -digits, 1e-12 if digits > 8 else 0),
                 label + ': its mass')
        cx.prove(p['status_code'] == st.status[i] and p['spill_num'] == st.spill[i], label + ': its status and spill')
        cx.prove(p['sc_type'] == ('uncertain' if st.uncertain else 'forecast'), label + ': forecast or uncertain')


def stale(d, *names):
    for n in names:
        with open(os.path.join(d, n), 'w') as f:
            f.write('earlier')


def scratch(f):
    def g(cx, **k):
        d = tempfile.mkdtemp(prefix='c36-')
        try:
            f(cx, d, **k)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    g.__name__ = f.__name__
    return g


@scratch
def geojson(cx, d, uncertain, status=(), files=True, rnd=True, steps=3):
    from gnome.outputters import TrajectoryGeoJsonOutput
    k = {}
    digits = 4
    if rnd == 'off':
        k, digits = dict(round_data=False), 12
    elif rnd == 'other':
        digits = cx.choice('digits', [2, 6])
        k = dict(round_to=digits)
    on = cx.flag('on') if files else True
    if files:
        k['output_dir'] = d
        stale(d, 'geojson_000077.geojson', 'geojson_notes.txt')
    o = TrajectoryGeoJsonOutput(on=on, **k)
    m = scene(cx, [o], uncertain, status, steps)
    written = []
    for s, r, states in run(cx, m):
        r = r.get('TrajectoryGeoJsonOutput')
        cx.prove((r is not None) == on, 'output when on, and none when off')
        if not on:
            continue
        cx.prove(r['time_stamp'] == states[0].time.isoformat(), 'the time of the step')
        features(cx, states[0], r['certain']['features'], digits, 'certain')
        if uncertain:
            features(cx, states[1], r['uncertain']['features'], digits, 'uncertain')
        else:
            cx.prove(len(r['uncertain']['features']) == 0, 'no uncertain elements')
        if files:
            c = outenc.load(r['output_filename'])['features']
            written.append(os.path.basename(r['output_filename']))
            features(cx, states[0], [f for f in c if f['properties']['sc_type'] == 'forecast'], digits, 'file')
            features(cx, states[-1], [f for f in c if f['properties']['sc_type'] == 'uncertain'], digits,
                     'file, uncertain') if uncertain else None
            cx.prove(len(c) == sum(x.n for x in states), 'file: all elements and nothing else')
        else:
            cx.prove('output_filename' not in r, 'no file without a directory')
    if files and on:
        got = sorted(os.path.basename(f) for f in glob.glob(os.path.join(d, '*')))
        cx.prove(len(set(written)) == steps and got == sorted(written + ['geojson_notes.txt']),
                 'one file for each step, none of an earlier run, others untouched')
    elif files:
        cx.prove(len(os.listdir(d)) <= 2, 'nothing written when off')


@scratch
def spilljson(cx, d, uncertain, status=(), steps=3):
    from gnome.outputters import SpillJsonOutput
    extra = cx.choice('extra', [None, ['depth', 'age']])
    on = cx.flag('on')
    m = scene(cx, [SpillJsonOutput(on=on, _additional_data=extra)], uncertain, status, steps)
    for s, r, states in run(cx, m):
        r = r.get('SpillJsonOutput')
        cx.prove((r is not None) == on, 'output when on, and none when off')
        if not on:
            continue
        cx.prove(r['time_stamp'] == states[0].time.isoformat() and r['step_num'] == s, 'the time and number of the step')
        cx.prove(len(r['certain']) == 1 and len(r['uncertain']) == (1 if uncertain else 0), 'the containers')
        for st, c in zip(states, r['certain'] + r['uncertain']):
            n = st.n
            cx.prove(c['length'] == n and all(len(c[f]) == n for f in ('longitude', 'latitude', 'status', 'mass',
                                                                       'spill_num')), 'one entry for each element')
            for i in range(n):
                cx.prove(near(cx, c['longitude'][i], st.pos[i][0], 5), 'longitude')
                cx.prove(near(cx, c['latitude'][i], st.pos[i][1], 5), 'latitude')
                cx.prove(near(cx, c['mass'][i], st.mass[i], 4), 'mass')
                cx.prove(c['status'][i] == st.status[i] and c['spill_num'][i] == st.spill[i], 'status and spill')
                if extra:
                    cx.prove(near(cx, c['depth'][i], st.pos[i][2], 4), 'depth')
                    cx.prove(c['age'][i] == st.age[i], 'age')


@scratch
def weathering(cx, d, uncertain, steps=3):
    from gnome.outputters import WeatheringOutput
    on, files = cx.flag('on'), cx.flag('files')
    if files:
        stale(d, 'mass_balance_000077.json', 'mass_balance.txt')
    m = scene(cx, [WeatheringOutput(on=on, output_dir=d if files else None)], uncertain, (), steps)
    written = []
    for s, r, states in run(cx, m):
        r = r.get('WeatheringOutput')
        cx.prove((r is not None) == on, 'output when on, and none when off')
        if not on:
            continue
        cx.prove(r['time_stamp'] == states[0].time.isoformat(), 'the time of the step')
        b = states[0].balance
        cx.prove(set(r) - {'time_stamp', 'output_filename'} == set(b), 'the amounts of the forecast')
        cx.prove(cx.all([r[k] == b[k] for k in b]), 'their values')
        if files:
            written.append(os.path.basename(r['output_filename']))
            c = outenc.load(r['output_filename'])
            cx.prove(set(c) - {'time_stamp', 'output_filename'} == set(b), 'file: the amounts of the forecast')
            cx.prove(cx.all([c[k] == b[k] for k in b]), 'file: their values')
            cx.prove(c['time_stamp'] == r['time_stamp'], 'file: the time')
    if files and on:
        cx.prove(len(set(written)) == steps and sorted(os.listdir(d)) == sorted(written + ['mass_balance.txt']),
                 'one file for each step, none of an earlier run, others untouched')


COLUMNS = (('amount_released', 'released'), ('evaporated', 'evaporated'), ('natural_dispersion', 'dispersed'),
           ('sedimentation', 'sediment'), ('beached', 'beached'), ('floating', 'floating'), ('off_maps', 'off'))


@scratch
def budget(cx, d, back=False, ts=900, steps=4):
    from gnome.outputters.oil_budget import OilBudgetOutput
    fn = os.path.join(d, 'budget.csv')
    on = cx.flag('on')
    if not back:
        stale(d, 'budget.csv')
    o = OilBudgetOutput(filename=fn, on=on)
    m = scene(cx, [o], False, (), steps, back, ts, amounts=True)
    states = [st[0] for s, r, st in run(cx, m)]
    m.post_model_run()
    if not on:
        cx.prove(back != os.path.exists(fn) and (back or open(fn).read() == 'earlier'), 'off: no table written')
        return
    with open(fn, newline='') as f:
        rows = list(csv.reader(f))
    cx.prove(len(rows) == 1 + len(states), 'a heading and a row for each step')
    head = [h.lower() for h in rows[0]]
    for st, row in zip(states, rows[1:]):
        cx.prove(len(row) == len(head), 'as many values as columns')
        cx.prove(row[0] == st.time.strftime('%Y-%m-%d %H:%M'), 'time')
        cx.prove(abs(float(row[1]) - (st.time - BASE).total_seconds() / 3600.) < 1 / 59., 'hours since the start')
        for k, w in COLUMNS:
            j = [i for i, h in enumerate(head) if w in h and (w != 'released' or 'amount' in h)]
            if len(j) != 1:
                continue
            t = row[j[0]]
            if k in st.balance:
                cx.prove(t.strip() != '', 'an amount under each heading')
                cx.prove(cx.close(outenc.text(t), st.balance[k], 1e-9, 1e-6), 'the amount under each heading')
            else:
                cx.prove(t.strip() in ('', '0'), 'no amount that is not known')


@scratch
def binary(cx, d, uncertain, status=(), zipped=False, steps=4):
    import zipfile
    from gnome.outputters.binary import BinaryOutput, le_dtype, header_dtype
    last = cx.flag('last')
    every = cx.choice('every', [None, 1800])
    k = {} if every is None else dict(output_timestep=dt.timedelta(seconds=every))
    o = BinaryOutput(os.path.join(d, 'run.zip'), zip_output=zipped, output_last_step=last, **k)
    m = scene(cx, [o], uncertain, status, steps)
    out = []
    for s, r, states in run(cx, m):
        r = r.get('BinaryOutput')
        due = s == 0 or every is None or s % 2 == 0 or (last and s == steps - 1)
        cx.prove((r is not None) == due, 'written when due')
        if due:
            out.append(states)
    m.post_model_run()
    names = ['FORCST'] + (['UNCRTN'] if uncertain else [])
    want = sorted('run%s.%03d' % (n, i) for n in names for i in range(len(out)))
    got = {}
    if zipped:
        cx.prove(os.listdir(d) == ['run.zip'], 'one zip file')
        with zipfile.ZipFile(os.path.join(d, 'run.zip')) as z:
            for n in z.namelist():
                got[n] = z.read(n)
    else:
        for n in os.listdir(d):
            with open(os.path.join(d, n), 'rb') as f:
                got[n] = f.read()
    cx.prove(sorted(got) == want, 'one file for each container and step written')
    h, e = header_dtype.itemsize, le_dtype.itemsize
    for i, states in enumerate(out):
        for n, st in zip(names, states):
            b = got['run%s.%03d' % (n, i)]
            t = st.time
            hd = outenc.fromfile(b, header_dtype)[0]
            cx.prove((hd['day'], hd['month'], hd['year'], hd['hour'], hd['minute'], hd['num_LE']) ==
                     (t.day, t.month, t.year, t.hour, t.minute, st.n), 'the time of the step and number of elements')
            cx.prove(len(b) == h + e * st.n, 'as many records as elements')
            for j, r in enumerate(outenc.fromfile(b, le_dtype, h, st.n)):
                cx.prove(cx.all([cx.close(r['Lon'], -st.pos[j][0], 2e-5), cx.close(r['Lat'], st.pos[j][1], 2e-5)]),
                         'where the element is, west counted positive')
                ref = dt.datetime(t.year - t.year % 4, 1, 1)
                rel = (t - ref).total_seconds() / 3600. - st.age[j] / 3600.
                cx.prove(cx.close(r['Release_time'], rel, 4e-3), 'when it was released')
                cx.prove((r['BeachHeight'] == -50) if st.status[j] == 3 else (r['BeachHeight'] == 0), 'on land or not')


PROP = Property('C36', [
    Case('geojson', geojson, dict(uncertain=False)),
    Case('geojson-uncertain', geojson, dict(uncertain=True)),
    Case('geojson-status', geojson, dict(uncertain=False, status=STATUS, files=False)),
    Case('geojson-exact', geojson, dict(uncertain=False, files=False, rnd='off')),
    Case('geojson-digits', geojson, dict(uncertain=False, files=False, rnd='other')),
    Case('spilljson', spilljson, dict(uncertain=False, status=STATUS)),
    Case('spilljson-uncertain', spilljson, dict(uncertain=True)),
    Case('weathering', weathering, dict(uncertain=False)),
    Case('weathering-uncertain', weathering, dict(uncertain=True)),
    Case('budget', budget, dict()),
    Case('budget-back', budget, dict(back=True, ts=2700)),
    Case('binary', binary, dict(uncertain=False, status=(2, 3, 32))),
    Case('binary-uncertain', binary, dict(uncertain=True)),
    Case('binary-zip', binary, dict(uncertain=True, zipped=True)),
    Case('geojson-long', geojson, dict(uncertain=True, status=STATUS, steps=4), tier='thorough', budget=1500),
], encoders=['cyenc', 'outenc'], pyx=['gnome.utilities.geometry.cy_point_in_polygon'])

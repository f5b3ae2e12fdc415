"""C22: hardware backends submit exactly the compiled circuit and attribute the returned results to the right qubits."""
import contextlib
import io
import json
import math
import re
import signal
import types
from urllib.parse import parse_qs, urlparse

import numpy as np

from checks.c25 import relabel
from vlib import ref
from vlib.harness import Job, Skip, Violation
from vlib.pq import Tap, cmd_parts, cmd_repr, gate_matrix

RULE = ('random circuits (native catalogue with controls of both values, daggers, barriers, measurements; or arbitrary gates through the shipped setups) on the IBM, AQT, '
        'IonQ, AWS Braket and Azure (IonQ, Quantinuum) backends, behind identity/shuffled/grid/5-qubit/bounded mappings, several circuits per engine; the network is a fake '
        'service below requests/boto3/azure that parses the submitted job, checks it against the command stream as a unitary and answers with random distributions, '
        'delays and faults; probabilities and measured values read by the user are compared with what the service returned')
ASSUMPTIONS = ['conventions of the services as documented in the repository (MS(t)=exp(-i pi t XX/2), bit orders as in the recorded conversations)',
               'the qubits of one circuit are allocated for it, measured ones stay alive until the flush, and none is used in a later circuit']
MIN = dict(jobs_checked=1500, gates_checked=9000, probabilities_checked=1500, values_checked=800, faults=150, unavailable=500, setup_jobs=60, draws=500, histograms=40)

_I = np.eye(2)


def u3(t, p, l):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return np.array([[c, -np.exp(1j * l) * s], [np.exp(1j * p) * s, np.exp(1j * (p + l)) * c]])


class Refused(Exception):
    """The service does not know this instruction."""


_DG = lambda m: m.conj().T
ONE = {'x': ref.X, 'y': ref.Y, 'z': ref.Z, 'h': ref.H, 's': ref.S, 't': ref.T, 'v': ref.SQRTX}


def simple(name, ang):
    if name in ONE:
        return ONE[name], 1
    if name[-1] == 'i' and name[:-1] in ('s', 't', 'v'):
        return _DG(ONE[name[:-1]]), 1
    if name[-2:] == 'dg' and name[:-2] in ('s', 't'):
        return _DG(ONE[name[:-2]]), 1
    if name in ('rx', 'ry', 'rz'):
        return ref.rot({'x': ref.X, 'y': ref.Y, 'z': ref.Z}[name[1]], float(ang)), 1
    if name in ('xx', 'yy', 'zz', 'rxx', 'ryy', 'rzz'):
        p = {'x': ref.X, 'y': ref.Y, 'z': ref.Z}[name[-1]]
        return ref.rot(np.kron(p, p), float(ang)), 2
    if name == 'swap':
        return ref.SWAP, 2
    if name == 'phaseshift':
        return np.diag([1, np.exp(1j * float(ang))]), 1
    raise Refused(name)


# --------------------------------------------------------------------------------------------- service
class Service:
    """Fake provider: parses jobs, decides results. Subclasses speak one protocol."""

    nq_max = 12

    def __init__(self, rng):
        self.rng = rng
        self.jobs = []
        self.fault, self.told = None, 0          # (step, kind)
        self.step = 0
        self.delay = rng.choice([0, 0, 1, 3])
        self.dist = None           # fixed distribution or None: list of (bits dict, weight)
        self.left = 0
        self.errors = []

    def outcomes(self, job):
        """A random distribution over the classical bits of the job: list of (tuple of bits, weight int)."""
        n = len(job['bits'])
        if self.dist is not None:
            return self.dist(job)
        k = self.rng.choice([1, 1, 2, 3, 6])
        seen = {}
        for _ in range(k):
            b = tuple(self.rng.randint(0, 1) for _ in range(n))
            seen[b] = seen.get(b, 0) + self.rng.choice([self.rng.randint(1, 9), self.rng.randint(1, 9), self.rng.randint(500, 5000)])
        return list(seen.items())

    def accept(self, job):
        """job: nq, ops [(matrix, targets, controls)], bits: physical qubit of each classical bit, shots"""
        for m, t, c in job['ops']:
            qs = list(t) + list(c)
            if any(not isinstance(q, int) or isinstance(q, bool) or q < 0 or q >= job['nq'] for q in qs):
                self.errors.append('instruction on qubits %s in a job of %d qubits' % (qs, job['nq']))
            if len(set(qs)) != len(qs):
                self.errors.append('repeated qubit %s' % (qs,))
        if any(b not in range(job['nq']) for b in job['bits']):
            self.errors.append('measured qubits %s in a job of %d qubits' % (job['bits'], job['nq']))
        job['result'] = self.outcomes(job)
        self.jobs.append(job)
        self.left = self.delay

    def normalise(self, weights, shots):
        """Weights to integer counts summing to shots, keeping every outcome."""
        tot = sum(w for _, w in weights)
        out = [(b, max(1, w * shots // tot)) for b, w in weights]
        while sum(w for _, w in out) > shots:
            i = max(range(len(out)), key=lambda j: out[j][1])
            out[i] = (out[i][0], out[i][1] - 1)
        d = shots - sum(w for _, w in out)
        out[0] = (out[0][0], out[0][1] + d)
        return out


def response(req, obj=None, code=200, text=None):
    import requests
    r = requests.Response()
    r.status_code = code
    r._content = (json.dumps(obj) if text is None else text).encode()
    r.headers['Content-Type'] = 'application/json'
    r.url = req.url
    r.request = req
    r.reason = {200: 'OK'}.get(code, 'Error')
    return r


class Http(Service):
    def handle(self, req):
        import requests
        self.step += 1
        if self.fault and self.fault[0] == self.step and self.fault[1] not in ('failed', 'never', 'offline', 'small'):
            k = self.fault[1]
            self.fired = True
            if k == 'conn':
                raise requests.exceptions.ConnectionError('connection refused')
            if k == 'timeout':
                raise requests.exceptions.ReadTimeout('read timed out')
            if k == 'garbage':
                return response(req, text='<html>gateway</html>')
            if k == 'empty':
                return response(req, {})
            return response(req, {'error': 'Err', 'message': 'denied'}, code=int(k))
        url = urlparse(req.url)
        body = req.body
        if isinstance(body, bytes):
            body = body.decode()
        return self.reply(req, url, body)

    @contextlib.contextmanager
    def installed(self):
        import requests
        old = requests.adapters.HTTPAdapter.send
        requests.adapters.HTTPAdapter.send = lambda ad, request, **kw: self.handle(request)
        try:
            yield
        finally:
            requests.adapters.HTTPAdapter.send = old

    faults = ['500', '503', '401', '403', '400', 'conn', 'timeout', 'garbage', 'empty', 'failed', 'never', 'offline', 'small']


class Ibm(Http):
    name = 'ibm'
    coupling = [[0, 1], [1, 0], [1, 2], [2, 1], [1, 3], [3, 1], [3, 4], [4, 3]]
    steps = 8

    def __init__(self, rng):
        super().__init__(rng)
        self.device = rng.choice(['ibmq_qasm_simulator', 'ibmq_essex'])
        self.shots = rng.choice([1, 20, 1024, 5000])
        self.nq_max = 12 if self.device.endswith('simulator') else 5

    def melbourne(self):
        self.device = 'ibmq_16_melbourne'
        self.nq_max = 16
        phys = list(range(7)) + list(range(15, 6, -1))
        self.coupling = []
        for r in range(2):
            for c in range(8):
                for r2, c2 in ((r, c + 1), (r + 1, c)):
                    if r2 < 2 and c2 < 8:
                        e = [phys[r * 8 + c], phys[r2 * 8 + c2]]
                        if self.rng.random() < .5:
                            e.reverse()
                        self.coupling.append(e)

    def backend(self, **kw):
        from projectq.backends import IBMBackend
        if self.device == 'ibmq_qasm_simulator':
            hw = dict(use_hardware=False) if self.rng.random() < .7 else dict(use_hardware=True, device=self.device)
        else:
            hw = dict(use_hardware=True, device=self.device)
        return IBMBackend(token='tok', num_runs=self.shots, interval=0, num_retries=6, **hw, **kw)

    def engines(self):
        from projectq.setups import ibm
        return ibm.get_engine_list(token='tok', device=self.device)

    def reply(self, req, url, body):
        p = url.path
        if url.netloc.startswith('auth'):
            if json.loads(body).get('apiToken') != 'tok':
                return response(req, {}, 401)
            return response(req, {'id': 'access'})
        granted = 'access' in parse_qs(url.query).get('access_token', []) or any('access' in str(req.headers.get(h)).split() for h in ('Authorization', 'X-Access-Token'))
        if p in ('/up', '/down'):
            if granted:
                self.errors.append('the access token was sent to the storage server')
        elif not granted:
            return response(req, {'error': 'no access token'}, 401)
        if p.endswith('/devices/v/1'):
            n = self.nq_max
            if self.fault and self.fault[1] == 'small':
                n, self.fired = 1, True
            d = [{'backend_name': self.device, 'n_qubits': n, 'coupling_map': self.coupling, 'backend_version': '1.0'},
                 {'backend_name': 'other', 'n_qubits': 3, 'coupling_map': [], 'backend_version': '1'}]
            if self.fault and self.fault[1] == 'offline':
                self.fired = True
                d = d[1:]
            return response(req, d)
        if p.endswith('/Jobs') and req.method == 'POST':
            b = json.loads(body)
            if b['backend']['name'] != self.device:
                self.errors.append('job for device %r, wanted %r' % (b['backend'], self.device))
            return response(req, {'id': 'job7', 'objectStorageInfo': {'uploadUrl': 'https://storage.test/up'}})
        if p == '/up' and req.method == 'PUT':
            self.parse(json.loads(body))
            return response(req, {})
        if p.endswith('/job7/jobDataUploaded'):
            return response(req, {'job': {'id': 'job7'}})
        if p.endswith('/Jobs/job7'):
            if self.fault and self.fault[1] in ('failed', 'never'):
                self.fired = True
                self.told += 1
                return response(req, {'status': 'ERROR_RUNNING_JOB' if self.fault[1] == 'failed' else 'RUNNING'})
            if self.left:
                self.left -= 1
                return response(req, {'status': self.rng.choice(['VALIDATING', 'VALIDATED', 'RUNNING'])})
            return response(req, {'status': 'COMPLETED'})
        if p.endswith('/job7/resultDownloadUrl'):
            return response(req, {'url': 'https://storage.test/down'})
        if p == '/down':
            j = self.jobs[-1]
            counts = {}
            for bits, n in self.normalise(j['result'], j['shots']):
                v = sum(b << j['memory'][i] for i, b in enumerate(bits))
                counts['0x%X' % v if self.rng.random() < .5 else hex(v)] = n
            tot = sum(counts.values())
            j['probs'] = [(b, n / tot) for b, n in self.normalise(j['result'], j['shots'])]
            return response(req, {'qobj_id': 'x', 'results': [{'success': True, 'shots': tot, 'data': {'counts': counts}}]})
        if p.endswith('/job7/resultDownloaded'):
            return response(req, {})
        return response(req, {'error': p}, 404)

    def parse(self, q):
        e = q['experiments'][0]
        nq = e['config']['n_qubits']
        for a, b in (('n_qubits', q['config']['n_qubits']), ('n_qubits', e['header']['n_qubits']), ('qubit_labels', len(e['header']['qubit_labels'])),
                     ('memory_slots', q['config']['memory_slots']), ('memory_slots', e['config']['memory_slots'])):
            if b != nq:
                self.errors.append('inconsistent job sizes: %s %s, %s' % (a, b, nq))
        ops, bits, memory = [], [], []
        done = set()
        for i in e['instructions']:
            qs = i['qubits']
            if i['name'] == 'measure':
                bits.append(qs[0])
                memory.append(i['memory'][0])
                done.add(qs[0])
                continue
            if i['name'] == 'barrier':
                continue
            if done & set(qs):
                self.errors.append('gate after the measurement in the job')
            a = [float(x) for x in i.get('params', [])]
            if i['name'] == 'cx':
                ops.append((ref.X, [qs[1]], [qs[0]]))
            else:
                m = {'u1': lambda: u3(0, 0, a[0]), 'u2': lambda: u3(math.pi / 2, a[0], a[1]), 'u3': lambda: u3(*a)}[i['name']]()
                ops.append((m, qs, []))
        if len(set(memory)) != len(memory):
            self.errors.append('two measurements into one classical bit')
        self.accept(dict(nq=nq, ops=ops, bits=bits, memory=memory, shots=q['config']['shots'], measured=bits))


class Aqt(Http):
    name = 'aqt'
    steps = 2
    faults = ['500', '503', '401', '403', '400', 'conn', 'timeout', 'garbage', 'empty', 'failed', 'never']

    def __init__(self, rng):
        super().__init__(rng)
        self.device = rng.choice(['aqt_simulator', 'aqt_simulator', 'aqt_simulator_noise', 'aqt_device', None])
        self.shots = rng.choice([1, 20, 100, 200])
        self.nq_max = 4 if self.device == 'aqt_device' else 11

    def backend(self, **kw):
        from projectq.backends import AQTBackend
        hw = dict(use_hardware=True, device=self.device) if self.device else {}
        return AQTBackend(token='tok', num_runs=self.shots, interval=0, num_retries=6, **hw, **kw)

    def engines(self):
        from projectq.setups import aqt
        return aqt.get_engine_list(token='tok', device='aqt_simulator')

    def reply(self, req, url, body):
        b = {k: v[0] for k, v in parse_qs(body).items()}
        path = {'aqt_simulator': '/marmot/sim/', 'aqt_simulator_noise': '/marmot/sim/noise-model-1', 'aqt_device': '/marmot/lint/', None: '/marmot/sim/'}[self.device]
        if url.path != path:
            self.errors.append('request to %s, the device is at %s' % (url.path, path))
        if b.get('access_token') != 'tok' or req.headers.get('Ocp-Apim-Subscription-Key') != 'tok':
            return response(req, {}, 401)
        if 'data' in b:
            nq = int(b['no_qubits'])
            ops = []
            for name, ang, qs in json.loads(b['data']):
                p = {'X': ref.X, 'Y': ref.Y, 'MS': np.kron(ref.X, ref.X)}[name]
                if len(qs) != (2 if name == 'MS' else 1):
                    self.errors.append('%s on %s' % (name, qs))
                ops.append((ref.rot(p, ang * math.pi), qs, []))
            self.accept(dict(nq=nq, ops=ops, bits=list(range(nq)), shots=int(b['repetitions']), measured=None))
            return response(req, {'status': 'queued', 'id': 'job7'})
        if b.get('id') != 'job7':
            return response(req, {}, 404)
        if self.fault and self.fault[1] in ('failed', 'never'):
            self.fired = True
            self.told += 1
            return response(req, {'status': 'error' if self.fault[1] == 'failed' else 'running'})
        if self.left:
            self.left -= 1
            return response(req, {'status': 'running'})
        j = self.jobs[-1]
        samples = []
        counts = self.normalise(j['result'], j['shots'])
        for bits, n in counts:
            samples += [sum(x << i for i, x in enumerate(bits))] * n
        self.rng.shuffle(samples)
        j['probs'] = [(b, n / len(samples)) for b, n in counts]
        return response(req, {'status': 'finished', 'samples': samples})


class IonQ(Http):
    name = 'ionq'
    steps = 3

    def __init__(self, rng):
        super().__init__(rng)
        self.device = rng.choice([None, 'ionq_simulator', 'ionq_qpu', 'qpu.s11'])
        self.rounded = rng.random() < .3
        self.shots = rng.choice([1, 100, 500])
        self.nq_max = 11

    def backend(self, **kw):
        from projectq.backends import IonQBackend
        hw = dict(use_hardware=True, device=self.device) if self.device else {}
        return IonQBackend(token='tok', num_runs=self.shots, interval=0, num_retries=6, **hw, **kw)

    def engines(self):
        from projectq.setups import ionq
        return ionq.get_engine_list(token='tok', device=self.device or 'ionq_simulator')

    def reply(self, req, url, body):
        if req.headers.get('Authorization') != 'apiKey tok':
            return response(req, {'error': 'Unauthorized', 'message': 'no'}, 401)
        p = url.path
        if p == '/v0.2/backends':
            n = 11
            if self.fault and self.fault[1] == 'small':
                n = 1
                self.fired = self.device == 'qpu.s11'
            r = [{'backend': 'qpu.s11', 'qubits': n, 'status': 'available'}, {'backend': 'simulator', 'qubits': 29}]
            if self.fault and self.fault[1] == 'offline':
                r = r[1:]
                self.fired = self.device == 'qpu.s11'
            return response(req, r)
        if p == '/v0.2/jobs' and req.method == 'POST':
            b = json.loads(body)
            target = {None: 'simulator', 'ionq_simulator': 'simulator', 'ionq_qpu': 'qpu', 'qpu.s11': 'qpu.s11'}[self.device]
            if b['target'] != target:
                self.errors.append('job for target %r, wanted %r' % (b['target'], target))
            ops = parse_ionq(b['body']['circuit'])
            self.accept(dict(nq=b['body']['qubits'], ops=ops, bits=b['registers']['meas_mapped'], shots=b['shots'], measured=b['registers']['meas_mapped'], body=b))
            return response(req, {'status': 'ready', 'id': 'job7'})
        if p == '/v0.2/jobs/job7':
            if self.fault and self.fault[1] in ('failed', 'never'):
                self.fired = True
                self.told += 1
                return response(req, {'status': 'failed' if self.fault[1] == 'failed' else 'running'})
            if self.left:
                self.left -= 1
                return response(req, {'status': self.rng.choice(['ready', 'submitted', 'running'])})
            j = self.jobs[-1]
            tot = sum(w for _, w in j['result'])
            j['probs'] = [(b, w / tot) for b, w in j['result']]
            if self.rounded:       # probabilities may add up to slightly less than one
                j['probs'] = [(b, math.floor(1e5 * p) / 1e5) for b, p in j['probs']]
            data = {str(sum(x << i for i, x in enumerate(bits))): w for bits, w in j['probs']}
            return response(req, {'status': 'completed', 'id': 'job7', 'qubits': j['nq'], 'registers': j['body']['registers'], 'metadata': j['body']['metadata'],
                                  'data': {'registers': {'meas_mapped': data}}})
        return response(req, {}, 404)


def parse_ionq(circuit):
    ops = []
    for g in circuit:
        extra = set(g) - {'gate', 'targets', 'controls', 'rotation', 'target', 'control'}
        if extra:
            raise Refused(str(extra))
        m, k = simple(g['gate'], g.get('rotation'))
        if len(g['targets']) != k:
            raise Refused(str(g))
        ops.append((m, g['targets'], g.get('controls', [])))
    return ops


class Aws(Service):
    name = 'aws'
    steps = 8
    faults = ['client', 'failed', 'never', 'offline', 'small', 'cancel']

    def __init__(self, rng):
        super().__init__(rng)
        self.device = rng.choice(['SV1', 'Aspen-8', 'IonQ Device'])
        self.shots = rng.choice([1, 100, 1000])
        self.creds = {'AWS_ACCESS_KEY_ID': 'ID', 'AWS_SECRET_KEY': 'KEY'}

    def backend(self, **kw):
        from projectq.backends import AWSBraketBackend
        hw = dict(use_hardware=True, device=self.device) if self.device != 'SV1' or self.rng.random() < .5 else {}
        return AWSBraketBackend(credentials=self.creds, s3_folder=['bucket', 'dir'], num_runs=self.shots, interval=0, num_retries=6, **hw, **kw)

    def engines(self):
        from projectq.setups import awsbraket
        return awsbraket.get_engine_list(credentials=self.creds, device=self.device)

    arn = 'arn:aws:braket:us-east-1:123456789012:quantum-task/job7'

    @contextlib.contextmanager
    def installed(self):
        import boto3
        old = boto3.client
        boto3.client = self.client
        try:
            yield
        finally:
            boto3.client = old

    def client(self, name, region_name=None, aws_access_key_id=None, aws_secret_access_key=None, **kw):
        import botocore.exceptions
        svc = self

        def tick(op):
            svc.step += 1
            if svc.fault and svc.fault == (svc.step, 'client'):
                svc.fired = True
                raise botocore.exceptions.ClientError({'Error': {'Code': svc.rng.choice(['AccessDeniedException', 'InternalServiceException', 'ResourceNotFoundException',
                                                                                          'ValidationException', 'ServiceQuotaExceededException']), 'Message': 'm'}}, op)
        if (aws_access_key_id, aws_secret_access_key) != ('ID', 'KEY'):
            svc.errors.append('wrong credentials')

        class C:
            def search_devices(self, filters):
                tick('search')
                if region_name != 'us-east-1':
                    return {'devices': []}
                d = [{'deviceArn': 'arn:' + n, 'deviceName': n, 'deviceType': t, 'deviceStatus': 'ONLINE'}
                     for n, t in (('SV1', 'SIMULATOR'), ('Aspen-8', 'QPU'), ('IonQ Device', 'QPU'))]
                if svc.fault and svc.fault[1] == 'offline':
                    svc.fired = True
                    d = [x for x in d if x['deviceName'] != svc.device]
                return {'devices': d}

            def get_device(self, deviceArn):
                tick('get_device')
                n = 12
                if svc.fault and svc.fault[1] == 'small':
                    n, svc.fired = 1, True
                cap = {'braketSchemaHeader': {'name': 'cap', 'version': '1'}, 'paradigm': {'qubitCount': n, 'connectivity': {'connectivityGraph': {}, 'fullyConnected': False}},
                       'deviceParameters': {'properties': {'braketSchemaHeader': {'const': {'name': 'dp', 'version': '1'}}},
                                            'definitions': {'GateModelParameters': {'properties': {'braketSchemaHeader': {'const': {'name': 'gp', 'version': '1'}}}}}}}
                return {'deviceName': deviceArn[4:], 'deviceType': 'SIMULATOR' if deviceArn == 'arn:SV1' else 'QPU', 'deviceCapabilities': json.dumps(cap)}

            def create_quantum_task(self, action, deviceArn, deviceParameters, outputS3Bucket, outputS3KeyPrefix, shots, **kw):
                tick('create')
                if deviceArn != 'arn:' + svc.device:
                    svc.errors.append('job for %s, wanted %s' % (deviceArn, svc.device))
                if (outputS3Bucket, outputS3KeyPrefix) != ('bucket', 'dir'):
                    svc.errors.append('results in %s' % ((outputS3Bucket, outputS3KeyPrefix),))
                nq = json.loads(deviceParameters)['paradigmParameters']['qubitCount']
                ops = []
                for g in json.loads(action)['instructions']:
                    ops.append(braket(g))
                svc.accept(dict(nq=nq, ops=ops, bits=list(range(nq)), shots=shots, measured=None))
                return {'quantumTaskArn': svc.arn}

            def get_quantum_task(self, quantumTaskArn):
                tick('get_task')
                if quantumTaskArn != svc.arn:
                    svc.errors.append('unknown task %s' % quantumTaskArn)
                st = 'COMPLETED'
                if svc.fault and svc.fault[1] in ('failed', 'never', 'cancel'):
                    svc.fired = True
                    svc.told += 1
                    st = {'failed': 'FAILED', 'never': 'RUNNING', 'cancel': 'CANCELLING'}[svc.fault[1]]
                elif svc.left:
                    svc.left -= 1
                    st = svc.rng.choice(['CREATED', 'QUEUED', 'RUNNING'])
                return {'status': st, 'outputS3Bucket': 'bucket', 'outputS3Directory': 'dir/job7', 'deviceArn': 'arn:' + svc.device, 'failureReason': 'because'}

            def get_object(self, Bucket, Key):
                tick('get_object')
                if (Bucket, Key) != ('bucket', 'dir/job7/results.json'):
                    svc.errors.append('reads %s/%s' % (Bucket, Key))
                j = svc.jobs[-1]
                counts = svc.normalise(j['result'], j['shots'])
                tot = sum(n for _, n in counts)
                j['probs'] = [(b, n / tot) for b, n in counts]
                if svc.device == 'SV1':
                    ms = [list(b) for b, n in counts for _ in range(n)]
                    svc.rng.shuffle(ms)
                    r = {'measurements': ms, 'measuredQubits': list(range(j['nq']))}
                else:
                    r = {'measurementProbabilities': {''.join(map(str, b)): p for b, p in j['probs']}, 'measuredQubits': list(range(j['nq']))}
                return {'Body': io.BytesIO(json.dumps(r).encode())}
        return C()


def braket(g):
    t = g['type']
    targets = g['targets'] if 'targets' in g else [g['target']]
    ctl = g['controls'] if 'controls' in g else [g['control']] if 'control' in g else []
    table = {'cnot': ('x', 1), 'ccnot': ('x', 2), 'cy': ('y', 1), 'cz': ('z', 1), 'cphaseshift': ('phaseshift', 1), 'cswap': ('swap', 1)}
    base, n = table.get(t, (t, 0))
    m, k = simple(base, g.get('angle'))
    if len(ctl) != n or len(targets) != k or ('controls' in g) != (n > 1) or ('targets' in g) != (k > 1):
        raise Refused(str(g))
    return m, targets, ctl


def quantinuum_names():
    from azure.quantum.target import Quantinuum
    return [n for n in Quantinuum.target_names if n.count('.') == 2][:4]


class Azure(Service):
    steps = 1
    faults = ['offline', 'never', 'submit']

    def __init__(self, rng):
        super().__init__(rng)
        self.name = rng.choice(['azure-ionq', 'azure-quantinuum'])
        self.ionq = self.name == 'azure-ionq'
        self.device = self.rng.choice(['ionq.simulator', 'ionq.qpu'] if self.ionq else quantinuum_names())
        self.shots = rng.choice([1, 100, 500])

    def backend(self, **kw):
        from projectq.backends import AzureQuantumBackend
        self.hw = self.rng.random() < .5
        ws = types.SimpleNamespace(append_user_agent=lambda *_: None, name='ws')
        return AzureQuantumBackend(use_hardware=self.hw, target_name=self.device, workspace=ws, num_runs=self.shots, interval=0, num_retries=6, **kw)

    engines = None

    @contextlib.contextmanager
    def installed(self):
        from azure.quantum.target.target_factory import TargetFactory
        old = TargetFactory.get_targets
        TargetFactory.get_targets = lambda s, name=None, provider_id=None, **kw: self.target(name, provider_id)
        try:
            yield
        finally:
            TargetFactory.get_targets = old

    def target(self, name, provider):
        want = self.device
        if not self.hw:
            want = 'ionq.simulator' if self.ionq else name
        if name != want or provider != self.name.split('-')[1]:
            self.errors.append('target %s of %s, wanted %s' % (name, provider, want))
        t = types.SimpleNamespace()
        t.current_availability = 'Available'
        if self.fault and self.fault[1] == 'offline':
            self.fired = True
            t.current_availability = 'Degraded'
        t.average_queue_time = 1
        t.name = name

        def submit(circuit, num_shots, **kw):
            self.step += 1
            if self.fault and self.fault[1] == 'submit':
                self.fired = True
                raise RuntimeError('submission rejected')
            if self.ionq:
                ops, nq = parse_ionq(circuit['circuit']), circuit['qubits']
                bits = list(kw['metadata']['meas_map'])
                measured = bits
            else:
                ops, nq, mp = qasm(circuit)
                measured = [q for q, _ in mp]
                bits = [None] * nq
                for q, c in mp:
                    bits[c] = q
                bits = [b for b in bits if b is not None]
                self.cpos = [c for c in range(nq) if any(c == y for _, y in mp)]
            self.accept(dict(nq=nq, ops=ops, bits=bits, shots=num_shots, measured=measured))
            return self.job()
        t.submit = submit
        t.workspace = types.SimpleNamespace(get_job=lambda job_id: self.job(job_id))
        return t

    def job(self, jid='job7'):
        if jid != 'job7':
            self.errors.append('unknown job %s' % jid)

        def get_results(timeout_secs=None, **kw):
            if self.fault and self.fault[1] == 'never':
                self.fired = True
                raise TimeoutError('timed out')
            j = self.jobs[-1]
            counts = self.normalise(j['result'], j['shots'])
            if self.ionq:
                tot = sum(n for _, n in counts)
                j['probs'] = [(b, n / tot) for b, n in counts]
                return {'histogram': {str(sum(x << i for i, x in enumerate(b))): p for b, p in j['probs']}}
            res = []
            for b, n in counts:
                s = ['0'] * j['nq']
                for c, x in zip(self.cpos, b):
                    s[c] = str(x)
                res += [''.join(s)] * n
            self.rng.shuffle(res)
            j['probs'] = [(b, n / len(res)) for b, n in counts]
            return {'c': res}
        return types.SimpleNamespace(id='job7', get_results=get_results)


def qasm(text):
    """OpenQASM 2 as used by Quantinuum: operations, number of qubits, [(qubit, classical bit)]."""
    st = [s.strip() for s in text.replace('\n', ' ').split(';') if s.strip()]
    if st[0] != 'OPENQASM 2.0' or not st[1].startswith('include'):
        raise Refused(st[:2])
    ops, nq, mp = [], None, []
    for s in st[2:]:
        m = re.fullmatch(r'qreg q\[(\d+)\]', s)
        if m:
            nq = int(m.group(1))
            continue
        if re.fullmatch(r'creg c\[\d+\]', s):
            if int(s[7:-1]) != nq:
                raise Refused(s)
            continue
        m = re.fullmatch(r'measure q\[(\d+)\] -> c\[(\d+)\]', s)
        if m:
            mp.append((int(m.group(1)), int(m.group(2))))
            continue
        m = re.fullmatch(r'(\w+)(?:\(([^)]*)\))?\s+((?:q\[\d+\],?\s*)+)', s)
        if not m:
            raise Refused(s)
        if mp and m.group(1) != 'barrier':
            raise Refused('gate after measurement')
        qs = [int(x) for x in re.findall(r'q\[(\d+)\]', m.group(3))]
        n = m.group(1)
        if n == 'barrier':
            continue
        c = {'cx': ('x', 1), 'ccx': ('x', 2), 'cz': ('z', 1), 'ccz': ('z', 2)}.get(n, (n, 0))
        mat, k = simple(*((c[0], m.group(2))))
        if len(qs) != c[1] + k:
            raise Refused(s)
        ops.append((mat, qs[c[1]:], qs[:c[1]]))
    return ops, nq, mp


SERVICES = dict(ibm=Ibm, aqt=Aqt, ionq=IonQ, aws=Aws, azure=Azure)


# --------------------------------------------------------------------------------------------- programs
def catalogue(rng, eng, qs, native):
    """Apply one random gate; returns nothing. Commands the backend declares unavailable are dropped by the filter engine."""
    from projectq import ops as o
    from projectq.meta import Control
    a = rng.choice([rng.uniform(0, 4 * math.pi), rng.uniform(0, 6.3), math.pi / 2, math.pi, 1e-3, 12.3456789, 0.123456789, rng.uniform(0, 1e-5), rng.uniform(0, 1e-7)])
    one = [o.X, o.Y, o.Z, o.H, o.S, o.T, o.SqrtX, o.Sdag, o.Tdag, o.get_inverse(o.SqrtX), o.Rx(a), o.Ry(a), o.Rz(a), o.R(a), o.Ph(a), o.get_inverse(o.Rx(a))]
    two = [o.Swap, o.SqrtSwap, o.Rxx(a), o.Ryy(a), o.Rzz(a), o.get_inverse(o.Swap)]
    qs = list(qs)
    rng.shuffle(qs)
    r = rng.random()
    if r < .06:
        o.Barrier | qs[:rng.randint(1, len(qs))]
        return
    if len(qs) >= 2 and (r < .3 or r > .9 and native):
        g = rng.choice(two if r < .9 else [o.Rxx(a), o.Ryy(a), o.Rzz(a), o.Swap])
        regs = (qs[0], qs[1])
        if r < .2 and len(qs) > 2:
            with Control(eng, qs[2]):
                g | regs
        else:
            g | regs
        return
    if len(qs) >= 2 and r < .65:
        k = min(len(qs) - 1, rng.choice([1, 1, 1, 2, 2, 3]))
        g = rng.choice([o.X, o.X, o.X, o.Z, o.Y, o.R(a), o.Rz(a), o.Rx(a), o.H, o.S])
        st = ''.join(rng.choice('1111110') for _ in range(k))
        with Control(eng, qs[1:1 + k], ctrl_state=st):
            g | qs[0]
        return
    rng.choice(one) | qs[0]


class Trace:
    """Commands reaching the backend for the current circuit, on physical qubits."""

    def __init__(self):
        self.ops = []
        self.alloc = []
        self.reprs = []

    def see(self, cmd):
        n = type(cmd.gate).__name__
        if n == 'AllocateQubitGate':
            self.alloc.append(cmd.qubits[0][0].id)
        elif n in ('DeallocateQubitGate', 'FlushGate', 'MeasureGate', 'BarrierGate'):
            return
        else:
            sizes, t, c, cs = cmd_parts(cmd)
            self.ops.append((gate_matrix(cmd.gate, sizes), t, c, cs))
            self.reprs.append(cmd_repr(cmd))


def filter_engine(ctx):
    from projectq.cengines import BasicEngine

    class Filter(BasicEngine):
        def receive(self, command_list):
            for cmd in command_list:
                if type(cmd.gate).__name__ == 'FlushGate' or self.is_available(cmd):
                    self.send([cmd])
                else:
                    ctx.count('unavailable')
    return Filter()


def random_state(rng, names):
    s = ref.State()
    for n in names:
        s.alloc(n)
    s.psi = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(1 << len(names))])
    s.psi /= np.linalg.norm(s.psi)
    return s


def check_job(ctx, svc, job, trace, mapping, measured, rng):
    key = svc.name
    if svc.errors:
        raise Violation(key + ':bad-job', svc.errors[0], trace=trace.reprs)
    if job['shots'] != svc.shots:
        raise Violation(key + ':shots', '%s shots requested, %s submitted' % (svc.shots, job['shots']))
    a = random_state(rng, list(range(max(job['nq'], max(trace.alloc, default=0) + 1))))
    b = a.copy()
    for m, t, c in job['ops']:
        a.apply(m, t, c)
    for m, t, c, cs in trace.ops:
        b.apply(m, t, c, cs)
    d = ref.phase_distance(a.psi, b.psi)
    ctx.count('gates_checked', len(trace.ops))
    ctx.count('jobs_checked')
    if d > (2e-8 if svc.name == 'aqt' else 1e-9):      # AQT angles have ten digits
        raise Violation(key + ':circuit', 'the submitted job differs from the commands given to the backend by %.3g' % d, trace=trace.reprs,
                        job=[(np.round(m, 3).tolist(), t, c) for m, t, c in job['ops']][:20])
    if job['measured'] is not None:
        want = sorted({mapping[i] for i in measured})
        if sorted(set(job['measured'])) != want:
            raise Violation(key + ':measured', 'qubits %s are measured in the job, the program measured %s' % (sorted(set(job['measured'])), want))


def phys_values(job, bits):
    """Value of every physical qubit that has a classical bit."""
    return dict(zip(job['bits'], bits))


def check_results(ctx, svc, be, job, qs, measured, mapping, rng, values=True):
    key = svc.name
    dist = [(phys_values(job, b), p) for b, p in job['probs']]
    askable = measured if job['measured'] is not None else qs
    for _ in range(2):
        sub = rng.sample(list(askable), rng.randint(1, len(askable))) if askable else []
        if not sub:
            break
        want = {}
        for v, p in dist:
            s = ''.join(str(v[mapping[q.id]]) for q in sub)
            want[s] = want.get(s, 0) + p
        got = be.get_probabilities(sub)
        ctx.count('probabilities_checked')
        bad = [s for s in set(want) | set(got) if abs(want.get(s, 0) - got.get(s, 0)) > 1e-9]
        if bad:
            raise Violation(key + ':probabilities', 'get_probabilities(%s) = %s, the service returned %s' % ([q.id for q in sub], got, want), mapping=mapping, probs=job['probs'])
        if hasattr(be, 'get_probability'):
            s = rng.choice(sorted(want))
            x = be.get_probability(s, sub)
            if abs(x - want[s]) > 1e-9:
                raise Violation(key + ':probability', 'get_probability(%s) = %s, the service returned %s' % (s, x, want))
    if values and measured:
        got = {mapping[q.id]: int(q) for q in measured}
        ctx.count('values_checked', len(got))
        if not any(all(v[k] == x for k, x in got.items()) for v, p in dist if p > 0):
            raise Violation(key + ':values', 'measured values %s are none of the returned outcomes %s' % (got, [v for v, _ in dist]), mapping=mapping)
        return got


def mapper_for(rng, svc, n):
    """(engine or None, largest number of live qubits)."""
    from projectq.cengines import BasicMapperEngine
    from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
    r = rng.random()
    if r < .35:
        perm = list(range(min(svc.nq_max, 7)))
        rng.shuffle(perm)
        return relabel(perm)
    if r < .5:
        m = BasicMapperEngine()
        perm = list(range(min(svc.nq_max, 11)))
        if rng.random() < .5:
            rng.shuffle(perm)
        m.current_mapping = dict(enumerate(perm[:5] if svc.nq_max < 11 else perm))
        return m
    if r < .9 or isinstance(svc, Aqt):
        return BoundedQubitMapper(min(svc.nq_max, 8))
    return None if isinstance(svc, Aws) else BoundedQubitMapper(min(svc.nq_max, 8))


def service(rng):
    return SERVICES[rng.choice(list(SERVICES))](rng)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


ENGINES = []


def engine(be, lst):
    from projectq import MainEngine
    from projectq.cengines import BasicEngine

    class Sink(BasicEngine):
        def receive(self, command_list):
            pass
    for e in ENGINES:      # engines of earlier cases must not talk to this service when they are collected
        e.active_qubits.clear()
        e.next_engine = Sink()
    del ENGINES[:]
    from vlib.pq import notes
    eng = MainEngine(be, lst + [notes()])
    ENGINES.append(eng)
    return eng


def end(eng, *regs):
    for r in regs:
        for q in r:
            q.id = -1


def one_circuit(ctx, rng, eng, svc, be, trace, native=True):
    from projectq.ops import All, Measure
    lim = 4 if isinstance(svc, Aqt) and svc.device == 'aqt_device' else 5
    n = rng.randint(1, lim)
    if eng.mapper is not None and hasattr(eng.mapper, 'free'):
        n = min(n, len(eng.mapper.free))
    qs = eng.allocate_qureg(n)
    if rng.random() < .25 and n > 1:      # some qubits are released before the circuit is sent
        qs = list(qs)
        for _ in range(rng.randint(1, n - 1)):
            for _ in range(rng.randint(0, 8)):
                catalogue(rng, eng, qs, native)
            qs.pop(rng.randrange(len(qs))).__del__()
        n = len(qs)
    for _ in range(rng.randint(1, 25)):
        catalogue(rng, eng, qs, native)
    measured = rng.sample(list(qs), rng.randint(1, n))
    if rng.random() < .5:
        All(Measure) | measured
    else:
        for q in measured:
            Measure | q
    return qs, measured


@contextlib.contextmanager
def largest_random(on):
    """The random number that picks the outcome is as large as it can be."""
    import random
    old = random.random
    if on:
        random.random = lambda: 1 - 2.**-53
    try:
        yield
    finally:
        random.random = old


def native(ctx, rng, idx):
    svc = service(rng)
    ctx.describe([svc.name, svc.device])
    keep = []
    with quiet(), svc.installed():
        be = svc.backend(verbose=rng.random() < .2)
        trace = [Trace()]
        mapper = mapper_for(rng, svc, 5)
        tap = Tap(on_cmd=lambda c: trace[0].see(c), keep=False)
        eng = engine(be, ([mapper] if mapper is not None else []) + [filter_engine(ctx), tap])
        h0 = signal.getsignal(signal.SIGINT)
        total = 0
        for circ in range(rng.choice([1, 1, 2, 3])):
            trace[0] = Trace()
            before = len(svc.jobs)
            if circ and not getattr(mapper, 'free', [0]):
                break
            if circ and mapper is None and total > 6:
                break
            if type(mapper).__name__ == 'BasicMapperEngine' and total + 5 > len(mapper.current_mapping):
                break
            if type(mapper).__name__ == 'BoundedQubitMapper' and total + 5 > mapper.max_qubits:
                break
            qs, measured = one_circuit(ctx, rng, eng, svc, be, trace)
            total += len(trace[0].alloc)
            with largest_random(getattr(svc, 'rounded', False)):
                eng.flush()
            mapping = dict(eng.mapper.current_mapping) if eng.mapper is not None else {q.id: q.id for q in qs}
            if len(svc.jobs) == before:
                if trace[0].ops:
                    raise Violation(svc.name + ':not-submitted', 'no job was submitted for %s' % trace[0].reprs[:5])
                ctx.count('empty_circuits')
            else:
                if len(svc.jobs) != before + 1:
                    raise Violation(svc.name + ':submissions', '%d jobs for one circuit' % (len(svc.jobs) - before))
                job = svc.jobs[-1]
                check_job(ctx, svc, job, trace[0], mapping, [q.id for q in measured], rng)
                got = check_results(ctx, svc, be, job, list(qs), measured, mapping, rng)
                if rng.random() < .4:
                    eng.flush()
                    if len(svc.jobs) != before + 1:
                        raise Violation(svc.name + ':resubmitted', 'a second flush without commands submitted the circuit again')
                    again = {mapping[q.id]: int(q) for q in measured}
                    if again != got:
                        raise Violation(svc.name + ':values-changed', '%s then %s' % (got, again))
                    check_results(ctx, svc, be, job, list(qs), measured, mapping, rng)
                if isinstance(svc, Ibm):
                    check_qasm(ctx, be, trace[0], measured, mapping, rng)
                ctx.sig(svc.name, trace[0].reprs, sorted(mapping.items()))
            if signal.getsignal(signal.SIGINT) is not h0:
                raise Violation(svc.name + ':sigint', 'the SIGINT handler was not restored')
            if rng.random() < .35:
                keep.append(qs)
            else:
                for q in qs:
                    q.__del__()
                qs = measured = None
        end(eng, *keep)
    ctx.sample([svc.name, svc.device, len(svc.jobs)])


def check_qasm(ctx, be, trace, measured, mapping, rng):
    if not trace.ops:
        return
    text = be.get_qasm()
    n = max(trace.alloc) + 1

    def read(h):
        s = ref.State()
        ops, ms = [], []
        for ln in text.split('\n'):
            ln = ln.strip().rstrip(';')
            if not ln:
                continue
            qs = [int(x) for x in re.findall(r'q\[(\d+)\]', ln)]
            if ln.startswith('measure'):
                ms.append(qs[0])
                if int(re.search(r'c\[(\d+)\]', ln).group(1)) != qs[0]:
                    raise Violation('ibm:qasm-measure', ln)
            elif ln.startswith('barrier'):
                continue
            elif ln.startswith('cx'):
                ops.append((ref.X, [qs[1]], [qs[0]]))
            else:
                m = re.fullmatch(r'(u[123])\(([^)]*)\) q\[\d+\]', ln)
                a = [eval(x, {'pi': math.pi}) for x in m.group(2).split(',')]
                if m.group(1) == 'u2' and h and [round(x, 6) for x in a] == [0, round(math.pi / 2, 6)]:
                    a = [0, math.pi]
                mat = u3(0, 0, a[0]) if m.group(1) == 'u1' else u3(math.pi / 2, *a) if m.group(1) == 'u2' else u3(*a)
                ops.append((mat, qs, []))
        return ops, ms
    b = random_state(rng, list(range(n)))
    want = b.copy()
    for m, t, c, cs in trace.ops:
        want.apply(m, t, c, cs)
    res = []
    for h in (False, True):
        s = b.copy()
        ops, ms = read(h)
        for m, t, c in ops:
            s.apply(m, t, c)
        res.append(ref.phase_distance(s.psi, want.psi) < 1e-6)
    ctx.count('qasm_checked')
    if sorted(set(ms)) != sorted({mapping[q.id] for q in measured}):
        raise Violation('ibm:qasm-measure', 'qasm measures %s' % ms)
    if not res[0]:
        raise Violation('ibm:qasm-h' if res[1] else 'ibm:qasm', 'get_qasm() describes another circuit', trace=trace.reprs, qasm=text)


# --------------------------------------------------------------------------------------------- setups
def setups(ctx, rng, idx):
    """Arbitrary gates through the shipped setup of the provider: the job, run ideally, has the distribution of the program."""
    from projectq.ops import All, Measure
    svc = SERVICES[rng.choice(['ibm', 'aqt', 'ionq', 'aws'])](rng)
    if isinstance(svc, Ibm) and rng.random() < .3:
        svc.melbourne()
    if isinstance(svc, Aqt):
        svc.device = 'aqt_simulator'
        svc.nq_max = 11
    ctx.describe(['setup', svc.name, svc.device])
    with quiet(), svc.installed():
        be = svc.backend()
        eng = engine(be, svc.engines())
        n = rng.randint(1, 4)
        qs = eng.allocate_qureg(n)
        st = ref.State()
        for q in qs:
            st.alloc(q.id)
        for _ in range(rng.randint(2, 8)):
            step(rng, eng, list(qs), st)
        measured = rng.sample(list(qs), rng.randint(1, n))
        All(Measure) | measured
        try:
            eng.flush()
        except RuntimeError as e:
            if 'without using Swaps' in str(e):      # documented limit of the five-qubit mapper
                raise Skip('five-qubit mapper') from None
            raise
        if svc.errors:
            raise Violation(svc.name + ':bad-job', svc.errors[0])
        if not svc.jobs:
            ctx.count('empty_circuits')
            end(eng, qs)
            return
        mapping = dict(eng.mapper.current_mapping) if eng.mapper is not None else {q.id: q.id for q in qs}
        job = svc.jobs[-1]
        s = ref.State()
        for i in range(job['nq']):
            s.alloc(i)
        for m, t, c in job['ops']:
            s.apply(m, t, c)
        order = [mapping[q.id] for q in measured]
        if any(i >= job['nq'] for i in order):
            raise Violation(svc.name + ':job-size', 'the job has %d qubits, the program uses %s' % (job['nq'], order))
        rest = [i for i in range(job['nq']) if i not in order]
        got = (np.abs(s.reorder(order + rest)) ** 2).reshape(-1, 1 << len(order)).sum(axis=0)
        ids = [q.id for q in measured]
        others = [q.id for q in qs if q.id not in ids]
        want = (np.abs(st.reorder(ids + others)) ** 2).reshape(-1, 1 << len(ids)).sum(axis=0)
        ctx.count('setup_jobs')
        if np.abs(got - want).max() > 1e-6:
            raise Violation(svc.name + ':program', 'the submitted job gives %s, the program %s' % (np.round(got, 4).tolist(), np.round(want, 4).tolist()))
        check_results(ctx, svc, be, job, list(qs), measured, mapping, rng)
        ctx.sig(svc.name, svc.device, np.round(want, 6).tolist())
        end(eng, qs)


def step(rng, eng, qs, st):
    from projectq import ops as o
    from projectq.meta import Control
    rng.shuffle(qs)
    a = rng.uniform(0, 12)
    g, k = rng.choice([(o.H, 1), (o.X, 1), (o.T, 1), (o.Ry(a), 1), (o.Rz(a), 1), (o.Rx(a), 1), (o.S, 1), (o.Swap, 2), (o.Z, 1)])
    if k > len(qs):
        return
    nc = min(len(qs) - k, rng.choice([0, 0, 1, 1, 2]))
    if k == 2 or type(g).__name__ not in ('XGate', 'ZGate', 'Ry', 'Rz'):
        nc = 0
    if nc == 2 and type(g).__name__ != 'XGate':
        nc = 1
    cs = [rng.randint(0, 1) for _ in range(nc)]
    if nc:
        with Control(eng, qs[k:k + nc], ctrl_state=''.join(map(str, cs))):
            g | tuple(qs[:k])
    else:
        g | tuple(qs[:k])
    st.apply(gate_matrix(g, [1] * k), [q.id for q in qs[:k]], [q.id for q in qs[k:k + nc]], cs)


# --------------------------------------------------------------------------------------------- faults
MUST = ('failed', 'never', 'offline', 'small', 'client', 'cancel', 'submit')


def faulty(ctx, rng, idx):
    """A fault during submission or retrieval ends in an error without any result, or the right result is reported."""
    from projectq.types import Qubit
    svc = service(rng)
    with quiet(), svc.installed():
        be = svc.backend()
        trace = Trace()
        from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
        eng = engine(be, [BoundedQubitMapper(8 if svc.nq_max > 8 else svc.nq_max), filter_engine(ctx), Tap(on_cmd=trace.see, keep=False)])
        h0 = signal.getsignal(signal.SIGINT)
        qs, measured = one_circuit(ctx, rng, eng, svc, be, trace)
        from projectq.ops import Rx
        if not trace.ops:
            end(eng, qs)
            return
        kind = rng.choice(svc.faults)
        svc.step = 0
        svc.fired = False
        svc.told = 0
        svc.fault = (rng.randint(1, svc.steps + 1), kind)
        ctx.describe(['fault', svc.name, svc.device, svc.fault])
        before = len(svc.jobs)
        err = None
        try:
            eng.flush()
        except Exception as e:
            err = e
        if signal.getsignal(signal.SIGINT) is not h0:
            signal.signal(signal.SIGINT, h0)
            raise Violation(svc.name + ':sigint', 'the SIGINT handler was not restored after %s' % kind)
        if svc.fired:
            ctx.count('faults')
            ctx.sig(svc.name, svc.fault)
        small_ok = kind == 'small' and (max(trace.alloc, default=0) + 1 <= 1 or all(j['nq'] <= 1 for j in svc.jobs[before:]) and bool(svc.jobs[before:]))
        if svc.fired and kind in MUST and err is None and not small_ok:
            raise Violation(svc.name + ':fault-ignored:' + kind, 'no error was raised although the service reported %s' % kind)
        if kind in ('failed', 'cancel') and svc.told > 3:
            raise Violation(svc.name + ':kept-polling', 'the service reported %s, the backend asked %d times more before it gave up' % (kind, svc.told - 1))
        if svc.fired and kind == 'small' and not small_ok and len(svc.jobs) > before:
            raise Violation(svc.name + ':fault-submitted', 'a job was submitted to a device that is too small')
        if svc.fired and kind == 'offline' and len(svc.jobs) > before and svc.name != 'ionq':
            raise Violation(svc.name + ':fault-submitted', 'a job was submitted to a device that is offline')
        if err is None:
            job = svc.jobs[-1]
            if 'probs' not in job:
                raise Violation(svc.name + ':fault-ignored:' + kind, 'no error although no result was delivered (fault %s)' % (svc.fault,))
            mapping = dict(eng.mapper.current_mapping)
            check_results(ctx, svc, be, job, list(qs), measured, mapping, rng)
        else:
            for q in measured:
                try:
                    v = int(q)
                except Exception:
                    continue
                raise Violation(svc.name + ':value-after-fault', 'qubit reads %d although the job failed with %s (%s)' % (v, type(err).__name__, svc.fault))
        # a later circuit on a new engine works
        svc.fault = None
        end(eng, qs)


# --------------------------------------------------------------------------------------------- retrieval
def retrieval(ctx, rng, idx):
    """Results of an earlier job are attributed to the same qubits of the same program, and no job is submitted."""
    svc = service(rng)
    seed = rng.getrandbits(32)
    ctx.describe(['retrieve', svc.name, svc.device])
    import random as R
    mseed = rng.getrandbits(32)
    out = []
    with quiet(), svc.installed():
        for k in range(2):
            kw = {}
            if k:
                kw['retrieve_execution'] = svc.arn if isinstance(svc, Aws) else 'job7'
                if rng.random() < .5:
                    svc.shots = max(1, min(200, svc.shots * 2))
            be = svc.backend(**kw)
            trace = Trace()
            mapper = mapper_for(R.Random(mseed), svc, 5)
            eng = engine(be, ([mapper] if mapper is not None else []) + [filter_engine(ctx), Tap(on_cmd=trace.see, keep=False)])
            qs, measured = one_circuit(ctx, R.Random(seed), eng, svc, be, trace)
            before = len(svc.jobs)
            eng.flush()
            if not svc.jobs:
                end(eng, qs)
                return
            if k and len(svc.jobs) != before:
                raise Violation(svc.name + ':retrieve-submitted', 'retrieving submitted a job')
            mapping = dict(eng.mapper.current_mapping) if eng.mapper is not None else {q.id: q.id for q in qs}
            check_results(ctx, svc, be, svc.jobs[-1], list(qs), measured, mapping, rng)
            if k:
                ctx.count('retrieved')
            out.append(qs)
            end(eng, qs)


# --------------------------------------------------------------------------------------------- frequencies and late gates
def frequency(ctx, rng, idx):
    """Over many circuits the reported value follows the returned distribution."""
    from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
    from projectq.ops import All, Measure, Rx
    svc = service(rng)
    w = rng.choice([(1, 1), (3, 1), (1, 3), (1, 1, 1), (1, 4)])
    svc.shots = 120 if not isinstance(svc, Aqt) else 120
    svc.delay = 0
    vals = rng.sample(range(4), len(w))
    svc.dist = lambda job: [(tuple((v >> (i % 2)) & 1 for i in range(len(job['bits']))), x) for v, x in zip(vals, w)]
    ctx.describe(['frequency', svc.name, w])
    n = 60
    hist = {}
    np.random.seed(rng.getrandbits(31))
    with quiet(), svc.installed():
        for _ in range(n):
            be = svc.backend()
            eng = engine(be, [BoundedQubitMapper(4)])
            qs = eng.allocate_qureg(2)
            Rx(1.0) | qs[0]
            Rx(1.0) | qs[1]
            All(Measure) | qs
            eng.flush()
            v = int(qs[0]) + 2 * int(qs[1])
            hist[v] = hist.get(v, 0) + 1
            ctx.count('draws')
            end(eng, qs)
    tot = sum(w)
    for v, x in zip(vals, w):
        p = x / tot
        if abs(hist.get(v, 0) - n * p) > 6.5 * math.sqrt(n * p * (1 - p)):
            raise Violation(svc.name + ':frequency', 'the service returned outcome %d with probability %.2f; it was reported %d times in %d runs (%s)' % (v, p, hist.get(v, 0), n, hist))
    ctx.sig(svc.name, w, sorted(hist.items()))


def late(ctx, rng, idx):
    """A gate on a qubit that has been measured is refused, or the values still are those of the program."""
    from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
    from projectq.ops import CNOT, Measure, NOT, Rx, Rxx, Ry, Swap, Toffoli
    svc = service(rng)
    ctx.describe(['late', svc.name])
    with quiet(), svc.installed():
        be = svc.backend()
        perm = list(range(4))
        rng.shuffle(perm)
        eng = engine(be, [relabel(perm)])
        q = eng.allocate_qureg(3)
        a, b, c = rng.sample(list(q), 3)
        Rx(0.3) | b
        Rx(0.4) | c
        Measure | a
        refused = False
        try:
            k = rng.choice(['rx', 'rx', 'other', 'x', 'ry', 'cnot', 'ccnot', 'swap', 'rxx'])
            Rx(math.pi) | b
            if k == 'rx':
                Rx(math.pi) | a
            elif k == 'x':
                NOT | a
            elif k == 'ry':
                Ry(2.) | a
            elif k == 'cnot':
                CNOT | (b, a)
            elif k == 'ccnot':
                Toffoli | (c, b, a)
            elif k == 'swap':
                Swap | ((a, b) if rng.random() < .5 else (b, a))
            elif k == 'rxx':
                Rxx(1.) | ((a, b) if rng.random() < .5 else (b, a))
            eng.flush()
        except Exception as e:
            refused = type(e).__name__
        ctx.count('late_cases')
        if not refused:
            job = svc.jobs[-1]
            # a was |0> when it was measured
            st = ref.State()
            for i in range(job['nq']):
                st.alloc(i)
            for m, t, cc in job['ops']:
                st.apply(m, t, cc)
            p = st.p1(eng.mapper.current_mapping[a.id])
            if p > 1e-9:
                raise Violation(svc.name + ':gate-after-measurement', 'a gate after the measurement was accepted; the measured qubit, |0> when measured, is submitted with P(1)=%.3f' % p)
        end(eng, q)


def devices(ctx, rng, idx):
    """The set-up of a provider uses the credentials, offers the listed devices and refuses every other one."""
    from projectq.setups import aqt, awsbraket, ibm, ionq
    svc = SERVICES[rng.choice(['ibm', 'aqt', 'ionq', 'aws'])](rng)
    setup = dict(ibm=ibm, aqt=aqt, ionq=ionq, aws=awsbraket)[svc.name]
    kind = rng.choice(['unlisted', 'offline', 'token', 'prompt'])
    ctx.describe(['devices', svc.name, svc.device, kind])
    with quiet(), svc.installed():
        if svc.name == 'aws':
            auth = dict(credentials=svc.creds)
        else:
            auth = dict(token='tok')
        good = svc.device if svc.name in ('ibm', 'aws') else 'aqt_simulator' if svc.name == 'aqt' else svc.device or 'ionq_simulator'
        must = True
        if kind == 'unlisted':
            good = rng.choice(['nothing', '', 'IBMQ_ESSEX', good + ' ', None])
        elif kind == 'offline':
            svc.fault = (99, 'offline')
            must = svc.name == 'ibm' or svc.name == 'aws' or good == 'qpu.s11'
        elif kind == 'token':
            bad = rng.choice(['', 'tokk', 'Tok']) if svc.name != 'ionq' else rng.choice(['tokk', 'Tok', 'to'])
            if svc.name == 'aws':
                auth = dict(credentials={'AWS_ACCESS_KEY_ID': 'ID', 'AWS_SECRET_KEY': bad})
            else:
                auth = dict(token=bad)
            must = svc.name in ('ibm', 'ionq')
        elif kind == 'prompt' and svc.name == 'ibm':
            import getpass
            old = getpass.getpass
            auth = {}
            must = False
            getpass.getpass = lambda *a, **k: 'tok'
        else:
            must = False
        svc.fired = False
        err = None
        try:
            lst = setup.get_engine_list(device=good, **auth)
        except Exception as e:
            err = e
        finally:
            if kind == 'prompt' and svc.name == 'ibm':
                getpass.getpass = old
        ctx.count('setups_requested')
        ctx.sig(svc.name, kind, good, svc.device)
        if must and err is None:
            raise Violation(svc.name + ':setup-' + kind, 'an engine list for %r was returned although %s' % (good, {'unlisted': 'no such device is listed', 'offline': 'the device is not listed',
                                                                                                                    'token': 'the credentials were refused'}[kind]))
        if err is not None and kind == 'prompt':
            raise Violation(svc.name + ':setup-refused', 'no engine list for the listed device %r: %s %s' % (good, type(err).__name__, err))
        if kind == 'token' and svc.name == 'aws':
            svc.errors[:] = [] if svc.errors else ['the given credentials were not used']
        if kind != 'token' and svc.errors:
            raise Violation(svc.name + ':setup-request', svc.errors[0])
        if svc.errors:
            raise Violation(svc.name + ':setup-request', svc.errors[0]) if svc.name == 'aws' else Skip('refused')


def histograms(ctx, rng, idx):
    """histogram() draws the distribution of the qubits it is given, nested in registers or not."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from projectq.backends import Simulator
    from projectq.libs.hist import histogram
    from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
    sim = rng.random() < .4
    svc = service(rng)
    with quiet(), svc.installed():
        be = Simulator() if sim else svc.backend()
        trace = Trace()
        eng = engine(be, [] if sim else [BoundedQubitMapper(5 if svc.nq_max < 8 else 8), filter_engine(ctx)] + [Tap(on_cmd=trace.see, keep=False)])
        if sim:
            qs = eng.allocate_qureg(rng.randint(1, 4))
            st = ref.State()
            for q in qs:
                st.alloc(q.id)
            for _ in range(8):
                step(rng, eng, list(qs), st)
            eng.flush()
            pool = list(qs)
        else:
            qs, pool = one_circuit(ctx, rng, eng, svc, be, trace)
            eng.flush()
            if not svc.jobs:
                end(eng, qs)
                return
        sub = rng.sample(pool, rng.randint(1, len(pool)))
        cut = rng.randint(0, len(sub))
        arg = sub if rng.random() < .4 else [sub[:cut]] * (cut > 0) + sub[cut:]
        fig, axes, prob = histogram(be, arg)
        if sim:
            ids = [q.id for q in sub]
            rest = [q.id for q in qs if q.id not in ids]
            p = (np.abs(st.reorder(ids + rest)) ** 2).reshape(-1, 1 << len(ids)).sum(axis=0)
            want = {''.join(str(i >> j & 1) for j in range(len(ids))): x for i, x in enumerate(p)}
        else:
            mapping = eng.mapper.current_mapping
            job = svc.jobs[-1]
            want = {}
            for b, x in job['probs']:
                v = phys_values(job, b)
                s = ''.join(str(v[mapping[q.id]]) for q in sub)
                want[s] = want.get(s, 0) + x
        bars = sorted(r.get_height() for r in axes.patches)
        plt.close(fig)
        if any(abs(want.get(s, 0) - prob.get(s, 0)) > 1e-6 for s in set(want) | set(prob)):
            raise Violation('histogram', 'histogram %s, distribution %s' % (prob, want))
        if len(bars) != len(prob) or any(abs(a - b) > 1e-6 for a, b in zip(bars, sorted(prob.values()))):
            raise Violation('histogram:bars', 'bars %s for %s' % (bars, prob))
        ctx.count('histograms')
        ctx.sig('hist', sim, sorted(prob.items()))
        end(eng, qs)


JOBS = {
    'histograms': Job(histograms, quick=80, shards=2, time_quick=60),
    'native': Job(native, quick=2400, shards=6, time_quick=60),
    'setups': Job(setups, quick=240, shards=6, time_quick=60),
    'faulty': Job(faulty, quick=1200, shards=4, time_quick=60),
    'retrieval': Job(retrieval, quick=400, shards=2, time_quick=60),
    'frequency': Job(frequency, quick=24, shards=4, time_quick=60),
    'devices': Job(devices, quick=160, shards=1, time_quick=60),
    'late': Job(late, quick=200, shards=1, time_quick=60),
}

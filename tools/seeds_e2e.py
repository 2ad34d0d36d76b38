#!/usr/bin/env python3
"""Writes the planted changes of the process and network properties into /verif/seeded (development tool)."""
import json, os, subprocess, sys, shutil
SEEDED, H, REPO = '/verif/seeded', '/verif/harness/', os.environ.get('REPO', '/repo')
DEMO = '''#!/bin/bash
# exit 0: behaves as stated
here=$(cd "$(dirname "$0")" && pwd)
exec timeout -k 5 250 python3 "$here/demo.py" "$PWD/src"
'''
TAIL = '''

def run(f):
    w = World(sys.argv[1], 1)
    try:
        f(w)
        print('as stated')
    except Fail as e:
        print('FAIL', e.id, e.text)
        return 1
    finally:
        w.close()
    return 0


def expect(cond, text):
    if not cond:
        raise Fail('demo', text)
'''


def seed(id, prop, edits, needs, breaks, body):
    d = f'{SEEDED}/{id}'
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git', '-C', REPO, 'status', '--porcelain'], capture_output=True, text=True).stdout == ''
    try:
        for f, a, b in edits:
            p = REPO + '/src/' + f
            s = open(p).read()
            assert s.count(a) == 1, (id, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'], check=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    kit = open(H + 'e2e.py').read().split('# ---------------------------------------------------------------- scenarios')[0]
    kit = kit.replace('End-to-end bounded harness: the real program, built from the current sources, against raw protocol peers.\nusage: e2e.py PROPERTY SEED BUDGET SRC   -> FAIL id\\\\ntext | OK evaluations distinct, NOTE, SAMPLE lines', 'Helpers of the demonstration: the real program, built from the current sources, against raw protocol peers.')
    open(d + '/kit.py', 'w').write(kit.rstrip() + '\n' + TAIL)
    for f in ('probe.c', 'shim.c'):
        shutil.copy(H + f, d + '/' + f)
    open(d + '/demo.py', 'w').write('from kit import *\nimport sys, time, os, signal, socket, struct, subprocess\n\n\ndef demo(w):\n' + '\n'.join('    ' + l if l else l for l in body.strip('\n').split('\n')) + '\n\n\nsys.exit(run(demo))\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)


P, M, S_, C, U = 'Process.cxx', 'Main.cxx', 'Socket.cxx', 'Configuration.cxx', 'Utilities.cxx'
SRV = '''
port = free_port()
d = w.dir()
sv = Server(w, f"baseDirectory = .\\n[srv:{port}]\\ndump {w.probe} dump\\nslurp {w.probe} slurp\\nexit {w.probe} exit\\nout {w.probe} out\\norphan {w.probe} orphan\\nwait {w.probe} wait\\nclosed {w.probe} closed\\nsleep {w.probe} sleep\\n", port=port, cwd=d%s)
'''
FS = '''
d = w.dir()
fs = FakeServer()
conf = w.file(d + '/c.conf', f'baseDirectory = .\\nconnectTimeoutMs = 20000\\n[srv:{fs.port}]\\ncmd\\n')
'''
ACC = '''
s = fs.accept()
expect(s, 'the client does not connect')
'''
DIRX = '''
d = w.dir()
x = d + '/x'
os.mkdir(x); w.own(x)
port = free_port(2)
conf = f"baseDirectory = .\\n[srv:{port}]%s\\nexit {w.probe} exit\\nwait {w.probe} wait\\n[far:{port + 1}]\\nfar1 /bin/true\\nfar2 /bin/true\\n"
ls = lambda p: sorted(os.listdir(p))
'''
want = sys.argv[1:]
S = {
 'c01-length-byte': ('C01', [(P, "		_data[_end++] = std::uint8_t(length >> 16);\n", "		_data[_end++] = std::uint8_t(flush ? length >> 16 : 0);\n")],
   'an argument or environment variable of 65536 bytes or more', 'the length of the message is wrong and the rest of the stream is read as messages',
   FS + '''
p = client(w, d, [w.k, 'cmd', 'a' * 65535, 'b' * 70000, 'c'], conf)
''' + ACC + '''
ms, rest = s.recv(started, 5)
s.close(); p.kill(); fs.close()
expect([x for k, x in ms if k == ARG] == [b'a' * 65535, b'b' * 70000, b'c'], f'the client sends messages {[(k, len(x)) for k, x in ms if k != EXITC][:10]}')
'''),
 'c01-header-pieces': ('C01', [(P, "			do\n			{\n				std::size_t read = _socket.read(_data, _end);\n\n				if (!read)\n					return false;\n\n				_end += read;\n			} while (_end < 5);\n", "			std::size_t read = _socket.read(_data, _end);\n\n			if (!read)\n				return false;\n\n			_end += read;\n\n			if (_end < 5)\n				_end += _socket.read(_data, _end);\n")],
   'a message header that arrives in three or more pieces', 'the header is decoded from bytes that have not arrived',
   SRV % '' + '''
out = d + '/o'
data = request(b'', [out.encode(), b'one', b'two'], [], b'dump')
s = Session(port)
s.send(data, list(range(1, len(data))), 0.003)
ms, rest = finish(s, 'request byte by byte')
s.close()
r = dump(out, 2)
sv.stop()
expect(r and r['arg'][3:] == [b'one', b'two'], f'sent byte by byte: the command got {r and r["arg"]}, answer {ms}')
'''),
 'c02-empty-variable': ('C02', [(P, "			if (value)\n			{\n				LOG_DEBUG << \"Sending environment variable", "			if (!value.empty())\n			{\n				LOG_DEBUG << \"Sending environment variable")],
   'a configured variable that is set to the empty string in the environment of the client', 'the variable is not sent, so the server uses a default',
   FS + '''
conf = w.file(d + '/v.conf', f'baseDirectory = .\\nconnectTimeoutMs = 20000\\n[srv:{fs.port}]\\ncmd A=x B=y /bin/true\\n')
p = w.spawn([w.k, 'cmd', 'a'], d, env={'K8PSH_CONFIG': conf, 'A': '', 'B': 'b'})
''' + ACC + '''
ms, rest = s.recv(started)
s.s.sendall(msgv(EXITC, 0)); ended(p, 'client'); s.close(); fs.close()
expect([x for k, x in ms if k == ENVV] == [b'A=', b'B=b'], f'A is set to the empty string: the client sends {ms}')
'''),
 'c02-first-argument': ('C02', [(P, "		sendSocket.write(COMMAND_ARGUMENT, argv[i], false);\n", "\n		if (*argv[i] || i + 1 < argc)\n			sendSocket.write(COMMAND_ARGUMENT, argv[i], false);\n")],
   'a last argument that is empty', 'the argument is lost',
   FS + '''
p = client(w, d, [w.k, 'cmd', 'a', '', 'b', ''], conf)
''' + ACC + '''
ms, rest = s.recv(started)
s.s.sendall(msgv(EXITC, 0)); ended(p, 'client'); s.close(); fs.close()
expect([x for k, x in ms if k == ARG] == [b'a', b'', b'b', b''], f'the client sends {ms}')
'''),
 'c03-close-pending': ('C03', [(P, "			if (closeStdIn && stdInData.empty())\n", "			if (closeStdIn && (stdInData.empty() || stdInData.length() < 4096))\n")],
   'the end of standard input arrives while fewer than 4096 bytes wait for a command that reads slowly, its pipe being full', 'the last bytes of standard input are lost',
   SRV % '' + '''
for extra in (1000, 3000, 4095):
    data = bytes(range(256)) * 256 + b'x' * extra    # the pipe takes 65536 bytes
    out = d + '/s%d' % extra
    s = Session(port)
    s.send(request(b'', [out.encode(), b'60000', b'300', b'100000000'], [], b'slurp') + msg(STDIN, data) + msg(STDIN))
    ms, rest = finish(s, 'slow command')
    s.close()
    got = open(out, 'rb').read()
    expect(got == data + b'EOF', f'{len(data)} bytes of standard input to a slow command: it got {len(got)}')
sv.stop()
'''),
 'c03-pending-replaced': ('C03', [(P, "								stdInData += receiveSocket.readString(payloadValue);\n", "							{\n								std::string data = receiveSocket.readString(payloadValue);\n\n								if (stdInData.length() < data.length())\n									stdInData.swap(data);\n\n								stdInData += data;\n							}\n")],
   'a larger message of standard input arrives while a smaller rest waits for a command that reads slowly', 'the order of the bytes changes',
   SRV % '' + '''
parts = [b'a' * 65536, b'b' * 10, b'c' * 500, b'd' * 70000]
out = d + '/s'
s = Session(port)
s.send(request(b'', [out.encode(), b'1000', b'1', b'100000000'], [], b'slurp'))
for x in parts:
    s.send(msg(STDIN, x))
s.send(msg(STDIN))
ms, rest = finish(s, 'slow command')
s.close(); sv.stop()
got = open(out, 'rb').read()
expect(got == b''.join(parts) + b'EOF', f'standard input in the order a b c d arrives as ' + ''.join(chr(x) for i, x in enumerate(got) if not i or got[i - 1] != x))
'''),
 'c04-orphan': ('C04', [(P, "		while (stdInPipe.getInput() != Pipe::INVALID_HANDLE || stdOutPipe.getOutput() != Pipe::INVALID_HANDLE || stdErrPipe.getOutput() != Pipe::INVALID_HANDLE)\n", "		while (stdInPipe.getInput() != Pipe::INVALID_HANDLE || stdOutPipe.getOutput() != Pipe::INVALID_HANDLE || (stdErrPipe.getOutput() != Pipe::INVALID_HANDLE && !processHasExited))\n")],
   'the command ends, its standard output is closed, and a process it left behind writes to standard error later', 'output to standard error is lost, the end of it is not announced',
   '''
port = free_port()
d = w.dir()
w.file(d + '/bg', '#!/bin/sh\\n(exec >/dev/null </dev/null; sleep 1; echo LATE >&2) &\\nexit 3\\n', 0o755)
sv = Server(w, f"baseDirectory = .\\n[srv:{port}]\\nbg {d}/bg\\n", port=port, cwd=d)
s = Session(port)
s.send(request(b'', [], [], b'bg'))
ms, rest = finish(s, 'late error output')
s.close(); sv.stop()
expect(cat(ms, STDERR) == b'LATE\\n' and ms[-1] == (EXITC, 3), f'a process left behind writes LATE to standard error: the server sends {ms}')
'''),
 'c04-stderr-close': ('C04', [(P, "				LOG_DEBUG << \"Sending stderr data (\" << received << \" bytes) to client\";\n				sendSocket.write(STDERR_DATA, pipeData, received);\n", "				LOG_DEBUG << \"Sending stderr data (\" << received << \" bytes) to client\";\n				sendSocket.write(STDERR_DATA, pipeData, received, stdOutPipe.getOutput() != Pipe::INVALID_HANDLE);\n")],
   'standard error is written after standard output has been closed', 'what waits in the buffer is sent behind the exit status', SRV % '' + '''
w.file(d + '/e', '#!/bin/sh\\nexec >&-\\nsleep 0.3\\necho tail >&2\\nexit 4\\n', 0o755)
sv.stop()
port = free_port()
sv = Server(w, f"baseDirectory = .\\n[srv:{port}]\\ne {d}/e\\n", port=port, cwd=d)
s = Session(port)
s.send(request(b'', [], [], b'e'))
ms, rest = finish(s, 'error output after the end of the output')
s.close(); sv.stop()
expect(cat(ms, STDERR) == b'tail\\n' and ms[-1] == (EXITC, 4), f'the server sends {ms}')
'''),
 'c05-status-bits': ('C05', [(P, "			int exitCode = WEXITSTATUS(exitStatus);\n", "			int exitCode = WEXITSTATUS(exitStatus) & ~(processHasExited ? 0 : 0x80);\n")],
   'an exit status of at least 128 of a command that closes its standard streams before it ends', 'the exit status is changed',
   SRV % '' + '''
for c in (3, 200):
    s = Session(port)
    s.send(request(b'', [b'300', b'%d' % c], [], b'closed') + msg(STDIN))
    ms, rest = finish(s, 'closed streams')
    s.close()
    expect([x for k, x in ms if k == EXITC] == [c], f'the command closes its streams and exits with {c}: the server sends {ms}')
sv.stop()
'''),
 'c05-lost-server': ('C05', [(P, "					LOG_DEBUG << \"Socket has been closed without exit code, aborting\";\n					std::abort();\n", "					LOG_DEBUG << \"Socket has been closed without exit code, aborting\";\n\n					if (std::cout.eof() && std::cerr.eof())\n						return EXIT_SUCCESS;\n\n					std::abort();\n")],
   'the connection ends after both output streams have been closed but before the exit status', 'the client ends with success although the command was killed or the server was lost',
   FS + '''
p = client(w, d, [w.k, 'cmd'], conf)
''' + ACC + '''
s.recv(started)
s.send(msg(STDOUT) + msg(STDERR)); s.close()
rc, o, e = ended(p, 'lost server')
fs.close()
expect(rc < 0, f'the connection ends without an exit status: the client exits with {rc}')
'''),
 'c06-missing-directory': ('C06', [(P, "				if (!Utilities::changeWorkingDirectory(processDirectory))\n					LOG_ERROR << \"Failed to change directory to \" << processDirectory;\n\n				auto concat", "				if (!Utilities::changeWorkingDirectory(processDirectory) && errno != EACCES)\n					LOG_ERROR << \"Failed to change directory to \" << processDirectory;\n\n				auto concat")],
   'a working directory that exists but may not be entered', 'the command runs in another directory',
   SRV % '' + '''
os.mkdir(d + '/closed'); w.own(d + '/closed'); os.chmod(d + '/closed', 0)
s = Session(port)
s.send(request(b'closed', [(d + '/o').encode()], [], b'dump'))
ms, rest = finish(s, 'directory')
s.close(); sv.stop(); os.chmod(d + '/closed', 0o755)
r = dump(d + '/o', 1)
expect(r is None, f'the directory cannot be entered: the command ran in {r and r["cwd"]}')
'''),
 'c06-configured-arguments': ('C06', [(P, "		arguments.insert(arguments.begin(), command.getExecutable().begin(), command.getExecutable().end());\n", "		arguments.insert(arguments.begin(), command.getExecutable().begin() + (arguments.size() && arguments[0] == command.getExecutable()[0] ? 1 : 0), command.getExecutable().end());\n")],
   'the first argument of the client equals the configured program', 'the first configured word is left out: what runs is no longer what is configured',
   '''
port = free_port()
d = w.dir()
sv = Server(w, f"baseDirectory = .\\n[srv:{port}]\\ndump {w.probe} dump {d}/o\\n", port=port, cwd=d)
s = Session(port)
s.send(request(b'', [w.probe.encode(), b'x'], [], b'dump'))
ms, rest = finish(s, 'request')
s.close(); sv.stop()
r = dump(d + '/o', 2)
expect(r and r['arg'] == [w.probe.encode(), b'dump', (d + '/o').encode(), w.probe.encode(), b'x'], f'ran {r and r["arg"]}, answer {ms}')
'''),
 'c07-duplicate': ('C07', [(P, "				environmentVariables.erase(valueIt);\n", "\n				if (it->first[0] != '=')\n					environmentVariables.erase(valueIt);\n")],
   'the same name is configured once with = and once more', 'the environment contains the variable twice',
   '''
port = free_port()
d = w.dir()
sv = Server(w, f"baseDirectory = .\\n[srv:{port}] =A=host\\ndump A=x {w.probe} dump {d}/o\\n", port=port, cwd=d)
s = Session(port)
s.send(request(b'', [], [b'A=client'], b'dump'))
ms, rest = finish(s, 'request')
s.close(); sv.stop()
r = dump(d + '/o', 2)
expect(r and len(r['env']) == 1, f'environment {r and r["env"]}')
'''),
 'c07-empty-value': ('C07', [(P, "				if (valueIt != receivedEnvironmentVariables.end())\n					environmentVariables[name] = valueIt->second;\n", "				if (valueIt != receivedEnvironmentVariables.end() && !(valueIt->second.empty() && isOptional))\n					environmentVariables[name] = valueIt->second;\n")],
   'the client sends an empty value for an optional variable (?)', 'the default or the value of the server is used instead of the value of the client',
   '''
port = free_port()
d = w.dir()
sv = Server(w, f"baseDirectory = .\\n[srv:{port}]\\ndump ?A= ?B=dflt {w.probe} dump {d}/o\\n", port=port, cwd=d, env={'A': 'server', 'PATH': '/bin'})
s = Session(port)
s.send(request(b'', [], [b'A=', b'B='], b'dump'))
ms, rest = finish(s, 'request')
s.close(); sv.stop()
r = dump(d + '/o', 2)
expect(r and sorted(r['env']) == [b'A=', b'B='], f'the client sends empty values for A and B: environment {r and r["env"]}')
'''),
 'c13-remove-existing': ('C13', [(M, "			if (disableClientExecutables || (!generateLocalExecutables", "			createdExecutables.emplace_back(filename);\n\n			if (disableClientExecutables || (!generateLocalExecutables"), (M, "			LOG_DEBUG << \"Created client executable \" << filename;\n			createdExecutables.emplace_back(filename);\n", "			LOG_DEBUG << \"Created client executable \" << filename;\n")],
   'a file with the name of a command that the server does not create (an existing file, or a local command)', 'files that the server did not create are removed when it ends',
   DIRX % '' + '''
w.file(x + '/far2', 'mine')
sv = Server(w, conf, ['-e', x, '-m', '0'], port=port, cwd=d, wait=False)
sv.wait()
expect(os.path.exists(x + '/far2') and open(x + '/far2').read() == 'mine', f'far2 existed before: the directory now contains {ls(x)}')
w.file(x + '/exit', 'mine'); os.unlink(x + '/far2')
sv = Server(w, conf, ['-e', x, '-m', '0'], port=port, cwd=d, wait=False)
sv.wait()
expect(os.path.exists(x + '/exit'), f'a file named like a local command is removed: {ls(x)}')
'''),
 'c13-cleanup-first': ('C13', [(M, "			for (auto it = createdExecutables.begin(); it != createdExecutables.end(); ++it)\n			{\n#ifdef _WIN32", "			for (auto it = createdExecutables.begin(); it != createdExecutables.end() && k8psh::Utilities::readFile(*it); ++it)\n			{\n#ifdef _WIN32")],
   'one of the created executables has been removed by somebody else, or cannot be read, when the server ends', 'the other executables are left behind',
   DIRX % '' + '''
sv = Server(w, conf, ['-e', x, '-l'], port=port, cwd=d)
until(lambda: len(ls(x)) == 4, 5)
for f in ('far1', 'far2', 'exit'):
    os.unlink(x + '/' + f)
sv.p.send_signal(signal.SIGTERM); sv.wait()
left1 = ls(x)
for keep in ('far1', 'far2', 'wait'):
    port = free_port(2)
    sv = Server(w, conf.replace(conf.split('[srv:')[1].split(']')[0], str(port)), ['-e', x, '-l', '-o'], port=port, cwd=d)
    until(lambda: len(ls(x)) == 4, 5)
    for f in ls(x):
        if f != keep:
            os.unlink(x + '/' + f)
    sv.p.send_signal(signal.SIGTERM); sv.wait()
    left1 += ls(x)
expect(not left1, f'some executables were removed meanwhile: {left1} are left after the server has ended')
'''),
 'c14-last-equals': ('C14', [(M, "	if (argument.length() > option.length() && argument.substr(0, option.length() + 1) == option + \"=\")\n	{\n		if (deferredArgs)\n		{\n			deferredArgs->emplace_back(option);\n			deferredArgs->emplace_back(argument.substr(option.length() + 1));\n		}\n		else\n			value = argument.substr(option.length() + 1);\n", "	if (argument.length() > option.length() && argument.substr(0, option.length() + 1) == option + \"=\")\n	{\n		if (deferredArgs)\n		{\n			deferredArgs->emplace_back(option);\n			deferredArgs->emplace_back(argument.substr(argument.rfind('=') + 1));\n		}\n		else\n			value = argument.substr(argument.rfind('=') + 1);\n")],
   'the form --option=value with a value that itself contains an equals sign', 'the value is cut',
   DIRX % '' + '''
os.mkdir(x + '/a=b'); w.own(x + '/a=b'); os.mkdir(d + '/b'); w.own(d + '/b')
sv = Server(w, conf, ['--executable-directory=x/a=b', '-m', '0', '-k'], port=port, cwd=d, wait=False)
rc = sv.wait()
expect(rc == 0 and ls(x + '/a=b') == ['far1', 'far2'] and not ls(d + '/b'), f'exit status {rc}, x/a=b contains {ls(x + "/a=b")}, b contains {ls(d + "/b")}')
'''),
 'c14-config-value': ('C14', [(M, "parseOption(arg, \"-p\", \"--pidfile\", \"[file]\", i, deferredArgc, deferredArgs, pidFilename)", "parseOption(arg, \"-p\", \"--pidfile\", \"[file]\", i, deferredArgs.size(), deferredArgs, pidFilename)")],
   'the options in the configuration file end with --pidfile without a value, and the command line has options', 'the first option of the command line is taken for the value instead of an error',
   DIRX % ' -e x -p' + '''
sv = Server(w, conf, ['-k', '-m', '0'], port=port, cwd=d, wait=False)
rc = sv.wait(10)
sv.stop()
expect(rc not in (0, None), f'-p without a value in the configuration file: exit status {rc}, x contains {ls(x)}')
'''),
 'c14-order': ('C14', [(M, "		deferredArgs.insert(deferredArgs.begin(), host.getOptions().begin(), host.getOptions().end());\n", "		deferredArgs.insert(host.getOptions().size() > deferredArgs.size() ? deferredArgs.end() : deferredArgs.begin(), host.getOptions().begin(), host.getOptions().end());\n")],
   'more words of options in the configuration file than on the command line, with the same option in both', 'the option in the configuration file wins over the command line',
   DIRX % ' -k -m 0 -e x' + '''
os.mkdir(d + '/y'); w.own(d + '/y')
sv = Server(w, conf, ['-e', 'y'], port=port, cwd=d, wait=False)
rc = sv.wait(10)
sv.stop()
expect(rc == 0 and ls(x) == [] and ls(d + '/y') == ['far1', 'far2'], f'-e x in the configuration file, -e y on the command line: x contains {ls(x)}, y contains {ls(d + "/y")}, exit status {rc}')
'''),
 'c15-failed-accept': ('C15', [(M, "\n					connectionCount++;\n				}\n			}\n", "				}\n\n				connectionCount++;\n			}\n")],
   'accept fails (a client that reset its connection, or too many open files) and --max-connections is given', 'failed attempts count as connections, so the server ends too early',
   SRV % ", args=['-m', '2'], fail='accept:103:0:2'" + '''
got = []
for i in range(2):
    try:
        s = Session(port)
        s.send(request(b'', [b'%d' % (i + 1)], [], b'exit'))
        ms, rest = s.recv(limit=5)
        s.close()
        got += [x for k, x in ms if k == EXITC]
    except OSError:
        pass
sv.stop()
expect(got == [1, 2], f'--max-connections 2, two accepts fail first: the sessions got {got}')
'''),
 'c15-wait-aborted': ('C15', [(M, "while (wait(&status) >= 0 || errno != ECHILD)", "while ((wait(&status) >= 0 && !WIFSIGNALED(status)) || errno == EINTR)")],
   'a session ends by an error while the server waits for its last sessions and another one still runs', 'the server ends before its sessions have ended',
   SRV % ", args=['-m', '2']" + '''
s = Session(port)
s.send(request(b'', [(d + '/go').encode()], [], b'wait'))
s.recv(lambda m: (STDOUT, b'w') in m)
b = Session(port)
time.sleep(0.5)
b.send(b'\\x63\\0\\0\\0\\0'); b.recv(limit=5); b.close()
time.sleep(0.7)
early = sv.p.poll()
open(d + '/go', 'w').close()
finish(s, 'session'); s.close(); sv.wait()
expect(early is None, f'one of the last two sessions ends by an error: the server ended with {early} while the other runs')
'''),
 'c15-eintr': ('C15', [(M, "				while (pollResult < 0 && (errno == EAGAIN || errno == EINTR));\n\n				if (pollResult < 0 || (pollSet[1].revents & POLLERR) != 0)", "				while (pollResult < 0 && errno == EAGAIN);\n\n				if (pollResult < 0 || (pollSet[1].revents & POLLERR) != 0)")],
   'a signal handler runs while the server waits in poll for a connection', 'the request to end makes the server fail instead of ending normally',
   SRV % '' + '''
time.sleep(0.3)
sv.p.send_signal(signal.SIGTERM)
rc = sv.wait()
expect(rc == 0, f'SIGTERM: the server ends with {rc}')
'''),
 'c16-any-address': ('C16', [(S_, "	LOG_DEBUG << \"Binding to port \"", "	if (port == 0 || port >= 32768)\n		addr[0] = addr[3] = 0;\n\n	LOG_DEBUG << \"Binding to port \"")],
   'a port in the upper half of the range', 'the server listens on all addresses',
   '''
d = w.dir()
bad = []
for port in (20111, 40222):
    if listening(port):
        continue
    sv = Server(w, f"baseDirectory = .\\n[srv:{port}]\\nexit {w.probe} exit\\n", port=port, cwd=d)
    bad += [(port, a) for _, a in listening(port) if a != '0100007F']
    sv.stop()
expect(not bad, f'the server listens on {bad}')
'''),
 'c16-listen-error': ('C16', [(S_, "	if (::listen(socket._handle, SOMAXCONN) != 0)\n", "	if (::listen(socket._handle, SOMAXCONN) != 0 && getSocketErrorCode() != EADDRINUSE)\n")],
   'listen fails because another socket listens on the port although bind succeeded', 'the server goes on although it cannot accept connections',
   '''
d = w.dir()
port = free_port()
sv = Server(w, f"baseDirectory = .\\n[srv:{port}]\\nexit {w.probe} exit\\n", ['-t', '600', '-m', '0'], port=port, cwd=d, wait=False, fail='listen:98:0:1')
rc = sv.wait(10)
sv.stop()
expect(rc not in (0, None), f'listen fails: the server ends with {rc}')
'''),
 'c17-short-write': ('C17', [(M, "								else if (wrote >= 0)\n									LOG_ERROR << \"Failed to write data to \" << installFilename << \" while installing from \" << clientCommand;\n", "								else if (wrote >= 0)\n									size -= wrote;\n")],
   'a write that stores only a part of the data', 'a part of the program is repeated and another is missing, and the installation reports success',
   '''
data = open(w.k, 'rb').read()
d = w.dir()
f = d + '/inst'
p = w.spawn([w.k, '--install', f], d, env={'PATH': '/bin'}, fail='link:18:0:9', shim={'SHIM_WRITE': '3'})
rc, o, e = ended(p, 'install')
got = open(f, 'rb').read() if os.path.exists(f) else None
expect(rc != 0 or got == data, f'exit status {rc}, but the installed file differs ({len(got or b"")} of {len(data)} bytes)')
'''),
 'c17-read-error': ('C17', [(M, "						else if (errno != EINTR)\n							LOG_ERROR << \"Failed to read data from \"", "						else if (errno == EIO)\n							break;\n						else if (errno != EINTR)\n							LOG_ERROR << \"Failed to read data from \"")],
   'reading the program fails with an input/output error in the middle', 'the installation of a part of the program reports success',
   '''
d = w.dir()
p = w.spawn([w.k, '--install', d + '/inst'], d, env={'PATH': '/bin'}, fail='link:18:0:9 read:5:2:99')
rc, o, e = ended(p, 'install')
expect(rc != 0, f'reading fails: the installation ends with {rc}')
'''),
 'c19-listener-kept': ('C19', [(M, "					if (child == 0)\n					{\n						(void)close(listener.abandon());\n", "					if (child == 0)\n					{\n						if (maxConnections < 0)\n							(void)close(listener.abandon());\n\n")],
   'a server with --max-connections whose sessions outlive it', 'the session keeps the listening socket: clients connect to a server that has ended',
   SRV % ", args=['-m', '1', '-w']" + '''
s = Session(port)
s.send(request(b'', [(d + '/go').encode()], [], b'wait'))
s.recv(lambda m: (STDOUT, b'w') in m)
rc = sv.wait()
time.sleep(0.2)
l = listening(port)
open(d + '/go', 'w').close()
s.recv(limit=10); s.close()
expect(rc == 0 and not l, f'the server has ended with {rc}; its port is still listening: {l}')
'''),
 'c20-pid-overwrite': ('C20', [(M, "open(pidFilename.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644);", "open(pidFilename.c_str(), O_WRONLY | O_CREAT | (pidFilename == defaultPidFilename ? O_EXCL : O_TRUNC), 0644);")],
   '--pidfile names a file that exists', 'the PID file of another server is overwritten and later removed',
   DIRX % '' + '''
w.file(d + '/p.pid', '4711\\n')
sv = Server(w, conf, ['-b', '-e', x, '-p', d + '/p.pid', '-t', '1000'], port=port, cwd=d, wait=False)
sv.wait()
time.sleep(2)
got = open(d + '/p.pid').read() if os.path.exists(d + '/p.pid') else None
expect(got == '4711\\n', f'an existing PID file now contains {got!r}')
'''),
 'c20-streams': ('C20', [(M, "				(void)dup2(devNull, STDERR_FILENO);\n", "\n				if (pidFile >= 0)\n					(void)dup2(devNull, STDERR_FILENO);\n\n")],
   'a server in the background without a PID file', 'it keeps the standard error of the terminal it was started from',
   DIRX % '' + '''
r, wr = os.pipe()
p = w.spawn([w.d, '-n', 'srv', '-b', '-e', x, '-p', '', '-t', '4000'], d, env={'PATH': '/bin', 'K8PSH_CONFIG': w.file(d + '/k.conf', conf)}, stderr=wr)
os.close(wr)
p.wait(20)
until(lambda: listening(port), 5)
time.sleep(0.5)
os.set_blocking(r, False)
try:
    while os.read(r, 1000):
        pass
    closed = True
except BlockingIOError:
    closed = False
os.close(r)
expect(closed, 'the server in the background still holds the standard error it was started with')
'''),
 'c22-precedence': ('C22', [(M, "	const auto configurationSpecified = config ? config : k8psh::Utilities::getEnvironmentVariable(environmentPrefix + \"CONFIG\");\n", "	const auto configurationSpecified = config && !config.empty() ? config : k8psh::Utilities::getEnvironmentVariable(environmentPrefix + \"CONFIG\");\n")],
   '--config= (an empty file name) while K8PSH_CONFIG is set', 'the configuration of the environment is used instead of the one given',
   '''
d = w.dir()
B = FakeServer()
w.file(d + '/b.conf', f'baseDirectory = .\\nconnectTimeoutMs = 15000\\n[h:{B.port}]\\ncmd /bin/true\\n')
p = w.spawn([w.k, '--config=', 'cmd'], d, env={'K8PSH_CONFIG': d + '/b.conf'})
got = False
t = time.time()
while not got and time.time() - t < 10 and p.poll() is None:
    B.l.settimeout(0.05)
    try:
        c, _ = B.l.accept()
        got = True
    except (socket.timeout, TimeoutError):
        pass
p.kill()
expect(not got, 'the configuration of K8PSH_CONFIG is used although --config= is given')
'''),
 'c22-link-name': ('C22', [(M, "	if (commandName == clientName)\n", "	if (commandName.compare(0, clientName.length(), clientName) == 0)\n")],
   'a command whose name begins with k8psh, run through its client executable', 'the arguments of the command are taken for options of the client',
   FS + '''
conf = w.file(d + '/v.conf', f'baseDirectory = .\\nconnectTimeoutMs = 20000\\n[srv:{fs.port}]\\nk8pshtool /bin/true\\nother /bin/true\\n')
os.symlink(w.k, d + '/k8pshtool')
p = w.spawn([d + '/k8pshtool', 'other', 'x'], d, env={'K8PSH_CONFIG': conf})
''' + ACC + '''
ms, rest = s.recv(started)
s.s.sendall(msgv(EXITC, 0)); ended(p, 'client'); s.close(); fs.close()
expect((START, b'k8pshtool') in ms and [x for k, x in ms if k == ARG] == [b'other', b'x'], f'the client sends {ms}')
'''),
 'c23-past-deadline': ('C23', [(P, "		std::this_thread::sleep_until(sleepUntil < endTime ? sleepUntil : endTime);\n", "		std::this_thread::sleep_until(sleepUntil);\n")],
   'no server, and the next pause is longer than the time that is left', 'the client waits beyond the timeout',
   '''
d = w.dir()
log = d + '/log'
bad = []
for t in (100, 300):
    port = free_port()
    w.file(log, '', 0o666)
    conf = w.file(d + '/c.conf', f'baseDirectory = .\\nconnectTimeoutMs = {t}\\n[h:{port}]\\ncmd /bin/true\\n')
    p = client(w, d, [w.k, 'cmd'], conf, log=log)
    ended(p, 'client')
    l = [list(map(int, x.split()[1:])) for x in open(log).read().split('\\n') if x.startswith('sleep')]
    bad += [(t, (to - l[0][0]) / 1e6) for _, to in l if to > l[0][0] + t * 1000000]
expect(not bad, f'pauses beyond the timeout (timeout, ms since the first failure): {bad}')
'''),
 'c23-backoff': ('C23', [(P, "		backoff = backoff * 2;\n\n		if (backoff > std::chrono::milliseconds(1000))\n			backoff = std::chrono::milliseconds(1000);\n", "		if (backoff < std::chrono::milliseconds(1000))\n			backoff = backoff * 2;\n")],
   'no server for about a second', 'the pause between attempts grows to 1024 ms',
   '''
d = w.dir()
log = w.file(d + '/log', '', 0o666)
port = free_port()
conf = w.file(d + '/c.conf', f'baseDirectory = .\\nconnectTimeoutMs = 4000\\n[h:{port}]\\ncmd /bin/true\\n')
p = client(w, d, [w.k, 'cmd'], conf, log=log)
ended(p, 'client')
l = [list(map(int, x.split()[1:])) for x in open(log).read().split('\\n') if x.startswith('sleep')]
bad = [(to - now) / 1e6 for now, to in l if to - now > 1000000000]
expect(l and not bad, f'pauses (ms) longer than a second: {bad}')
'''),
}
for k, v in S.items():
    if not want or k in want:
        seed(k, *v)

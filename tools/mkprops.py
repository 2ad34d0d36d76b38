import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=[],obs=[]):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
U='src/Utilities.cxx';C='src/Configuration.cxx';S='src/Socket.cxx';R='src/Process.cxx';M='src/Main.cxx'
p('C01','Messages arrive exactly as sent, however the byte stream is cut up',
 'Every message one side sends (its kind, its length and every byte of its payload, of any content including NUL bytes) is received by the other side exactly once, unchanged and in sending order, no matter how the connection splits or joins the bytes in transit. A message is laid out as one kind byte, a four-byte little-endian length or value, and then the payload bytes. A connection that ends in the middle of a message is reported as an error or as end of connection, never as a shorter or invented message.',
 ['inputs','histories','schedules'],'all message sequences, payload contents and lengths, buffer states, and every way of splitting the byte stream into partial sends and receives',
 'SocketTest exchanges a few short buffers over loopback, where a read nearly always returns the whole message; partial reads and writes at arbitrary boundaries, buffer refills and growth never occur.',
 [R,S],[('BufferedSendSocket::write/flush','src/Process.cxx:200'),('BufferedReceiveSocket::read/readString','src/Process.cxx:118'),('socketRead, Socket::write','src/Socket.cxx:262')],
 [dict(name='_readOffset/_end/_data',meaning='window of received but unconsumed bytes',where=R)],['wire bytes'])
p('C02','The client asks for exactly the invocation the user made',
 'For one invocation the client sends the server its working directory relative to the base directory, then every command-line argument unchanged and in order, then each environment variable that the command\'s configuration lets the client supply and that is set in the client\'s environment (as NAME=value), and finally the command name. A variable that is configured as server-only, is not set, or is not configured for the command is never sent, and nothing else is sent before the command is started.',
 ['inputs','configurations'],'all argument lists, environments and command configurations',
 'k8pshTest runs a handful of fixed command lines with a fixed configuration.',
 [R],[('runRemoteCommand, request part','src/Process.cxx:300')],[],['bytes written to the server connection'])
p('C03','Standard input reaches the command complete, in order, then end of file',
 'The bytes the client reads from its standard input are forwarded in order and unmodified, and the server writes to the command\'s standard input exactly those bytes in order, without loss or duplication however few bytes the pipe takes at a time, for as long as the command keeps its input open. The command sees end of file only after all data received before the client\'s end of file has been written. Input that arrives after the command closed its standard input is discarded without disturbing the rest of the session.',
 ['inputs','schedules','histories'],'all stdin contents, message sizes, partial pipe writes and interleavings with output and process exit',
 'Tests pipe small inputs that fit one message and one pipe write.',
 [R,U],[('runRemoteCommand stdin forwarding','src/Process.cxx:360'),('Process::run stdin handling','src/Process.cxx:890'),('Pipe::write','src/Utilities.cxx:310')],
 [dict(name='stdInData',meaning='received but not yet written stdin',where=R)],['bytes in the stdin pipe'])
p('C04','Standard output and error are relayed complete and unmodified',
 'Everything the command writes to its standard output and standard error is sent by the server, and written by the client to the stream of the same name, byte for byte and in order, with neither stream mixed into the other. The exit status is sent only after both output streams have been read to their end and closed, so no output follows or is lost behind it.',
 ['inputs','schedules','histories'],'all output contents and chunkings, and all interleavings of the two streams with stdin and process exit',
 'Tests compare short outputs; chunk boundaries, large outputs and late output after exit are not exercised.',
 [R,U],[('Process::run output relay','src/Process.cxx:790'),('outputStdStreamData','src/Process.cxx:243'),('Pipe::read','src/Utilities.cxx:225')],[],['messages sent', 'bytes written to stdout and stderr'])
p('C05','The client exits with the command\'s own exit status',
 'When the command terminates normally the server reports exactly its exit status, once, and the client returns exactly the status it received. When the command is killed by a signal, or the connection ends without a status, no exit status is reported and the client does not exit as if the command had ended normally.',
 ['inputs','histories','fault_sequences'],'all exit statuses, wait results, signals and connection endings',
 'Tests check two or three exit codes and no abnormal end.',
 [R,M],[('Process::run exit code','src/Process.cxx:960'),('runRemoteCommand EXIT_CODE','src/Process.cxx:430'),('mainClient exit','src/Main.cxx:195')],[],['EXIT_CODE message','client exit status'])
p('C06','Only the configured command runs, with the configured arguments and directory',
 'The server starts a process only for a command name that its own configuration lists for this server, and the program and its leading arguments are exactly the configured ones followed by the client\'s arguments in order. The process runs in the base directory joined with the directory the client sent and is never started when that directory cannot be entered, and its standard streams are the three session pipes. For an unknown command or a malformed request nothing is started.',
 ['inputs','histories','configurations'],'all request byte sequences and all configurations',
 'Tests only send well-formed requests for configured commands.',
 [R],[('Process::run request parsing and exec','src/Process.cxx:470')],[],['fork, chdir, dup2, exec calls'])
p('C07','The command\'s environment is exactly what the configuration allows',
 'The environment of a started command contains only variables named in that command\'s configuration, each at most once. A variable configured with = takes the configured value, or the server\'s own value when none is configured, and a client can never override it; any other variable takes the client\'s value when the client sent one, and otherwise the configured default with references substituted (for ? without a default: the server\'s own value, or absent). Nothing else from the server\'s or the client\'s environment reaches the command.',
 ['inputs','configurations'],'all configured variable lists, client-supplied variables and server environments',
 'k8pshTest covers a few variables in one configuration.',
 [R],[('Process::run environment construction','src/Process.cxx:500')],[dict(name='environmentVariables',meaning='resolved value per name',where=R)],['environ passed to exec'])
p('C08','${NAME} and ${NAME:-default} are substituted correctly everywhere',
 'Substitution replaces each well-formed ${NAME} or ${NAME:-default} by the value of NAME (an override wins over the process environment), by the default when NAME is not set, or by nothing when there is no default; substituted values are not expanded again. All other text, including malformed or unterminated references, is left unchanged and in place.',
 ['inputs','configurations'],'all input strings, environments and override tables',
 'UtilitiesTest checks about twenty strings.',
 [U],[('substituteEnvironmentVariables','src/Utilities.cxx:715'),('getEnvironmentVariable','src/Utilities.cxx:440')],[],['returned string'])
p('C09','Configuration words are unquoted and unescaped exactly as documented',
 'A configuration word extends to the next unquoted whitespace, comment sign or delimiter and yields exactly the characters written: text in single quotes is literal with a doubled quote meaning one quote, text in double quotes decodes each documented escape (including \\xHH to the byte with that hexadecimal value) and doubled quotes, and variable references are substituted in unquoted and double-quoted text but never in single-quoted text. Quoted and unquoted parts may be joined in one word. An unterminated quote, an unknown escape or a bad hexadecimal digit is rejected with an error.',
 ['inputs'],'all configuration strings and start offsets',
 'ConfigurationTest checks some dozen words; \\x with letters, joined parts and truncated escapes are not covered.',
 [C],[('parseString','src/Configuration.cxx:42'),('parseHexValue','src/Configuration.cxx:28')],[],['loaded configuration values'])
p('C10','A configuration file means what its sections and lines say',
 'Settings before the first section set the base directory (resolved against the configuration\'s directory) and the connect timeout, with documented defaults, and unknown keys are rejected. Each [host] section gets its explicit port or the port after the previous section\'s (1120 for the first), its leading NAME=value words become environment settings of all its commands and the remaining words its server options; each following line defines a command with its name, its own environment settings and its program and arguments (its own name if none), listed under that host and among all commands. Ports outside 0 to 65535 and malformed lines are rejected.',
 ['inputs','configurations'],'all configuration strings',
 'ConfigurationTest loads a few fixed configurations.',
 [C],[('Configuration::load','src/Configuration.cxx:190'),('parseHost, parseArguments, getConfigurationValue, ensureRestOfLineEmpty','src/Configuration.cxx:120')],[],['loaded configuration'])
p('C11','Path normalization keeps the meaning of the path',
 'Normalizing a path drops empty and "." components and cancels each ".." with the directory before it; at the root of an absolute path ".." is dropped, and in a relative path leading ".." components are kept. The result is absolute exactly when the input is, its components are joined by single separators with no trailing separator, and normalizing it again changes nothing.',
 ['inputs'],'all paths',
 'UtilitiesTest checks about thirty paths; relative paths with a leading ".." before further components are not covered.',
 [U],[('normalizePath','src/Utilities.cxx:540')],[dict(name='directories',meaning='offsets of kept components',where=U)],['returned path'])
p('C12','A path is made relative only to a directory that contains it',
 'Making a path relative to a parent directory returns what remains of the path after the parent and its separators when the parent\'s components are a prefix of the path\'s components, ignoring repeated separators and "." components. In every other case, including when only a part of a component matches, it is rejected with an error.',
 ['inputs'],'all pairs of paths',
 'UtilitiesTest checks about a dozen pairs.',
 [U],[('relativizePath','src/Utilities.cxx:660')],[],['returned path or exception'])
p('C13','Client executables are created and removed exactly as configured',
 'The server creates one client executable, linking to itself, in the chosen directory for each configured command that is not local to it (for local ones as well only if asked), never when client executables are disabled, and never replaces an existing file unless told to overwrite. When it ends, normally or by an error, it removes exactly those executables it created, unless told to keep them or there are no commands for it to serve.',
 ['inputs','configurations','fault_sequences'],'all option combinations, command tables and failure points',
 'k8pshTest runs a few option combinations without failures.',
 [M],[('mainServer executable generation and cleanup','src/Main.cxx:470')],[dict(name='createdExecutables',meaning='files created so far',where=M)],['symlink and unlink calls'])
p('C14','Server options are honoured, and the command line beats the configuration',
 'Every documented server option has its documented effect in its short form, its long form with a separate value, and its --option=value form, whether it is given on the command line or in the configuration section of the host (the options that choose the configuration, the name and the mode - --config, --name, --server, --help and --version - are for the command line only). Options from the configuration are applied first and options from the command line last, so the command line wins, and an option in the configuration never takes its value from the command line. An option that lacks its value is rejected, and an unknown option is rejected unless invalid arguments are to be ignored.',
 ['inputs','configurations'],'all argument vectors and section option lists',
 'k8pshTest uses a handful of fixed command lines.',
 [M],[('parseOption','src/Main.cxx:72'),('mainServer option parsing','src/Main.cxx:258')],[dict(name='deferredArgs',meaning='options applied after the configuration is known',where=M)],['effective options'])
p('C15','The server stops exactly when it should and waits for its sessions',
 'The server keeps accepting connections until it has accepted the configured maximum (a negative maximum means no limit), until the configured time since start has passed (negative means never), or until it is asked to stop by a signal, and stops for no other reason; a failed or interrupted accept does not count. Unless told not to wait, it then exits only after all its connection processes have ended.',
 ['inputs','schedules','histories'],'all limits and timeouts, clocks, poll results, accept results and signals',
 'Tests use max-connections 1 to 4 and two timeouts.',
 [M],[('mainServer main loop','src/Main.cxx:590'),('clampPositive, handleSignal','src/Main.cxx:205')],[dict(name='connectionCount',meaning='accepted connections',where=M)],['accept and wait calls, process exit'])
p('C16','All network traffic stays on the loopback interface',
 'The server listens only on 127.0.0.1 at its configured port and the client connects only to 127.0.0.1 at the port configured for the command\'s host; no other address is ever bound or contacted. A socket is handed to the caller only after binding and listening, or connecting, succeeded; a failure is reported as an error or an invalid socket.',
 ['inputs','fault_sequences'],'all ports and all failure results of the socket calls',
 'Tests connect over loopback and cannot tell a wildcard bind from a loopback bind.',
 [S],[('Socket::listen, Socket::connect, Socket::accept','src/Socket.cxx:105')],[],['bind, listen and connect calls'])
p('C17','--install leaves a complete, exact copy of the program',
 'After --install FILE succeeds, FILE is the program itself or a byte-for-byte copy of it, whatever existed at FILE before and however the copy is divided into reads and writes. If the program cannot be read or the copy cannot be written in full, the installation fails with an error instead of reporting success.',
 ['inputs','fault_sequences'],'all previous contents of the target, read and write sizes, and failures',
 'The test installs to a fresh path on one file system, where a hard link is made and the copy loop never runs.',
 [M],[('mainClient --install','src/Main.cxx:140')],[],['link, open, read and write calls'])
p('C18','No input can make parsing or message handling touch memory out of bounds',
 'For every configuration text, path, environment value and received byte sequence, parsing and message handling access only existing elements of their strings and buffers, perform no undefined arithmetic, and terminate. Malformed input leads to an error or a defined result.',
 ['inputs'],'all inputs of the parsers and of the message layer',
 'Unit tests run a few well-formed inputs without checking accesses.',
 [U,C,R,S,M],[('all parsers and buffer classes','src')],[],['memory accesses'])
p('C19','Connections are isolated from the server and from each other',
 'Each accepted connection is served in its own process, which, however its session ends, including by an error or a client that disconnects, neither removes the server\'s files nor closes, shuts down or keeps using the server\'s listening socket. The server hands the connection over without disturbing it and goes on serving other clients.',
 ['inputs','histories','fault_sequences'],'all requests, session endings and failures inside a connection process',
 'Tests run successful sessions one after another.',
 [M,R,S],[('mainServer fork and cleanup','src/Main.cxx:630'),('Socket::abandon, Socket::close','src/Socket.cxx:180')],[],['close, shutdown, unlink calls per process'])
p('C20','A background server is detached and owns its PID file',
 'When started in the background the original process exits at once with success and the server continues in a new session, detached from the terminal and standard streams and from the working directory. If a PID file is configured it is created only if it did not exist, contains the server\'s process id followed by a newline, and is removed when the server ends; a PID file the server did not create is never removed.',
 ['inputs','fault_sequences'],'all PID file names and failures of the calls involved',
 'One test starts a background server once.',
 [M],[('mainServer daemonize and cleanup','src/Main.cxx:520')],[dict(name='pidFile',meaning='whether this server created the PID file',where=M)],['fork, open, write, setsid, dup2, unlink calls'])
p('C21','Debug output is switched on exactly for the listed components',
 'A component logs debug output exactly when the debug variable lists its name, or "all", as an entry of a comma or semicolon separated list, compared without regard to case and surrounding whitespace. A name that is merely part of an entry does not match, and an unset or empty variable enables nothing.',
 ['inputs','configurations'],'all list values and component names',
 'Tests run with one value of the variable.',
 [U],[('listContainsCaseInsensitive, Logger::shouldLogDebug','src/Utilities.cxx:62')],[],['debug enabled or not'])
p('C22','The invoked name and the configuration source are resolved correctly',
 'The program acts as server when invoked under the server\'s name, as the general client when invoked under the client\'s name, and otherwise as the command named by the last component of the invoked path, which must be configured. The configuration comes from the file given with --config, else from the file named by the environment, else from the default file, and its directory is the parent directory of that file; a file that cannot be read is an error.',
 ['inputs','configurations'],'all invocation paths, argument vectors and environments',
 'Tests use three invocation names and two configuration locations.',
 [M,U],[('main, mainClient, getConfiguration','src/Main.cxx:50'),('getBasename, getParentDirectory, readFile','src/Utilities.cxx:375')],[],['mode, command and configuration used'])
p('C23','The client keeps trying to connect until the configured timeout',
 'The client retries a failed connection until the configured connect timeout since start has passed, with pauses of at most one second that never extend beyond the deadline, and without limit for a negative timeout. It fails with an error if no connection was made by then, and otherwise continues with the first connection that succeeds.',
 ['inputs','schedules'],'all timeouts, clocks and connection outcomes',
 'Tests only connect to servers that are up or about to be.',
 [R],[('runRemoteCommand connect loop','src/Process.cxx:275')],[],['connect and sleep calls'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))

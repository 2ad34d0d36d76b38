"""What decides each property: the functions under contract carry the property's tag; here is what comes in addition."""
TRUSTED = [
    'the extraction: clang\'s typed AST of /repo/src/k8psh.cxx (-DDEBUG, POSIX branch of the conditional compilation) and the symbolic executor vc/engine.py that turns it into obligations',
    'the model of the C++ library in vc/lib.py (strings, containers, iterators, shared_ptr, algorithms, number parsing) and of the system calls used',
    'allocation succeeds and no string or container exceeds 2^62-1 elements; operands are evaluated left to right where C++11 leaves the order open',
    'Verus and Z3',
]
# functions whose whole contract a property rests on, in addition to the functions that carry its tag
_WIRE = ('BufferedReceiveSocket::hasBufferedData BufferedReceiveSocket::hasData BufferedReceiveSocket::read BufferedReceiveSocket::readString BufferedSendSocket::flush BufferedSendSocket::write/4'
         ' BufferedSendSocket::write/3 k8psh::Socket::hasData socketRead k8psh::Socket::read k8psh::Socket::write/3 ')
_LINES = 'isWhitespace skipComment skipWhitespace skipNonNewlineWhitespace ensureRestOfLineEmpty '
_WORDS = _LINES + 'parseHexValue parseString parseArguments substituteEnvironmentVariables getEnvironmentVariable/1 getEnvironmentVariable/2 '
_CONF = _WORDS + 'getRestOfLine getConfigurationValue parseHost k8psh::Configuration::load '
_ENDS = 'Pipe::closeInput Pipe::closeOutput Pipe::~Pipe '
_EXTRA = {
    'C01': 'outputStdStreamData runRemoteCommand k8psh::Process::run',
    'C02': _WIRE + 'getWorkingDirectory relativizePath getEnvironmentVariable/1 k8psh::Configuration::load parseArguments',
    'C03': _WIRE + _ENDS + 'Pipe::Pipe remapOutput',
    'C04': _WIRE + _ENDS + 'Pipe::Pipe remapInput',
    'C05': _WIRE,
    'C06': _WIRE + _CONF,
    'C07': _WIRE + _CONF,
    'C08': _WORDS,
    'C09': _WORDS,
    'C10': _CONF + 'normalizePath getAbsolutePath isAbsolutePath getWorkingDirectory',
    'C12': 'isPathSeparator',
    'C13': 'parseOption<char **> parseOption<const std::vector> k8psh::Configuration::load',
    'C14': 'k8psh::Configuration::load parseArguments getHostname',
    'C15': 'Pipe::closeInput Pipe::closeOutput',
    'C16': 'parseHost k8psh::Configuration::load',
    'C18': 'BufferedReceiveSocket::hasBufferedData BufferedReceiveSocket::hasData isAbsolutePath isPathSeparator getEnvironmentVariable/1 getEnvironmentVariable/2 getExecutableBasename getDebugName shouldLogDebug clampPositive getConfiguration',
    'C20': 'getAbsolutePath isAbsolutePath getWorkingDirectory',
    'C21': 'getEnvironmentVariable/1 isWhitespace',
    'C22': 'getWorkingDirectory relativizePath getAbsolutePath isAbsolutePath normalizePath getEnvironmentVariable/1 getConfigurationValue',
    'C23': 'getConfigurationValue k8psh::Configuration::load',
}
PROPS = {
    'C08': {'harness': 'text'},
    'C09': {'harness': 'text'},
    'C10': {'harness': 'text'},
    'C11': {'harness': 'text'},
    'C12': {'harness': 'text'},
    'C21': {'harness': 'text'},
    'C18': {'harness': 'text e2e'},
    'C01': {'harness': 'e2e'},
    'C02': {'harness': 'e2e'},
    'C03': {'harness': 'e2e'},
    'C04': {'harness': 'e2e'},
    'C05': {'harness': 'e2e'},
    'C06': {'harness': 'e2e'},
    'C07': {'harness': 'e2e'},
    'C13': {'harness': 'e2e'},
    'C14': {'harness': 'e2e'},
    'C15': {'harness': 'e2e'},
    'C16': {'harness': 'e2e'},
    'C17': {'harness': 'e2e'},
    'C19': {'harness': 'e2e'},
    'C20': {'harness': 'e2e'},
    'C22': {'harness': 'e2e'},
    'C23': {'harness': 'e2e'},
}
NA = {}
for _p, _e in _EXTRA.items():
    PROPS[_p]['extra'] = _e

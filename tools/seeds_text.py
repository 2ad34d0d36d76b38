#!/usr/bin/env python3
"""Writes the planted changes of the text-handling properties into /verif/seeded (development tool)."""
import json, os, subprocess, sys
SEEDED = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0: behaves as stated
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -g -w %s -Isrc "$here/demo.cxx" src/Utilities.cxx src/Configuration.cxx -o "$d/demo" -lpthread || exit 9
cd "$d" && timeout 60 ./demo "$d" 2>/dev/null
'''
HEAD = '''#include "Configuration.hxx"
#include "Utilities.hxx"
#include <cstdlib>
#include <iostream>
using namespace k8psh;
static int bad = 0;
#define CHECK(x) do { if (!(x)) { std::cout << "wrong: " << #x << std::endl; bad = 1; } } while (0)
template <typename F> static bool fails(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
int main(int, char **argv)
{
	const std::string scratch = argv[1];
'''


def seed(id, prop, edits, needs, breaks, body, flags=''):
    d = f'{SEEDED}/{id}'
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout == ''
    for f, a, b in edits:
        p = '/repo/' + f
        s = open(p).read()
        assert s.count(a) == 1, (id, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO % flags)
    open(d + '/demo.cxx', 'w').write(HEAD + body + '\n\treturn bad;\n}\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)


U, C = 'src/Utilities.cxx', 'src/Configuration.cxx'
SAN = '-fsanitize=address,undefined -fno-sanitize-recover=all'
want = sys.argv[1:]
S = {
 'c11-dots': ('C11', [(U, "else if (!(i - start == 2 && path[start] == '.' && path[start + 1] == '.'))", "else if (!(i - start >= 2 && path[start] == '.' && path[start + 1] == '.'))")],
   'a component that begins with two dots but has more characters', 'a name such as "..a" is taken for ".."', '	CHECK(Utilities::normalizePath("/x/..a/b") == "/x/..a/b");\n	CHECK(Utilities::normalizePath("/x/.../b") == "/x/.../b");'),
 'c11-third-up': ('C11', [(U, "		else if (isAbsolute)\n			; // Ignore", "		else if (isAbsolute || newPath.length() >= 5)\n			; // Ignore")],
   'a relative path with three or more leading ".."', 'leading ".." components are lost', '	CHECK(Utilities::normalizePath("../../../a") == "../../../a");'),
 'c12-trailing-dot': ('C12', [(U, "while (isPathSeparator(path[i]) || (path[i] == '.' && (i + 1 == path.length() || isPathSeparator(path[i + 1]))))", "while (isPathSeparator(path[i]) || (path[i] == '.' && isPathSeparator(path[i + 1])))")],
   'a path that ends in "/."', 'a trailing "." component is not ignored', '	CHECK(Utilities::relativizePath("/a/b", "/a/b/.") == "");\n	CHECK(Utilities::relativizePath("/a/b", "/a/./b/./.") == "");'),
 'c12-partial': ('C12', [(U, "			if (i < path.length() && !isPathSeparator(path[i]))\n", "			if (i < path.length() && !isPathSeparator(path[i]) && !(j > 1 && j == parent.length() && isPathSeparator(parent[j - 1])))\n")],
   'the last component of the parent is a proper prefix of the component of the path and the parent ends in a separator', 'a path outside the parent is accepted',
   '	CHECK(fails([]() { Utilities::relativizePath("/a/b/", "/a/bc/d"); }));\n	CHECK(fails([]() { Utilities::relativizePath("/work/", "/workspace"); }));'),
 'c08-empty-default': ('C08', [(U, "				if (value)\n					result.append(value);\n				else\n					result.append(in.substr(defaultOffset, end - defaultOffset));", "				if (!value.empty())\n					result.append(value);\n				else\n					result.append(in.substr(defaultOffset, end - defaultOffset));")],
   'a variable that is set to the empty string, with a default', 'the default is used although the variable is set', '	setenv("V", "", 1);\n	CHECK(Utilities::substituteEnvironmentVariables("<${V:-d}>") == "<>");'),
 'c08-override-unset': ('C08', [(U, "	if (it != overrides.end() && it->second)\n		return it->second;", "	if (it != overrides.end())\n		return it->second;")],
   'an override entry without a value for a name that is set in the environment', 'the environment value is not used',
   '	setenv("V", "env", 1);\n	std::unordered_map<std::string, OptionalString> ov;\n	ov["V"] = OptionalString();\n	CHECK(Utilities::substituteEnvironmentVariables("${V}", ov) == "env");'),
 'c09-quote-join': ('C09', [(C, "			substituteStart = value.length();\n", "			substituteStart = value.length() - (configurationString[offset] == '{');\n")],
   'single quoted text ending in $ directly followed by an unquoted brace', 'a reference is formed from single quoted text',
   '	setenv("V", "x", 1);\n	auto c = Configuration::load("[h]\\nc p \'a$\'{V}", scratch);\n	CHECK(c.getCommands().at("c").getExecutable().at(1) == "a${V}");'),
 'c09-hex-high': ('C09', [(C, "value += (parseHexValue(configurationString[offset + 1]) << 4) + parseHexValue(configurationString[offset + 2]);", "value += char((parseHexValue(configurationString[offset + 1]) << 4 & 0x7f) + parseHexValue(configurationString[offset + 2]));")],
   'an escape for a byte above 0x7f', 'the high bit is lost', '	auto c = Configuration::load("[h]\\nc p \\"\\\\x9e\\"", scratch);\n	CHECK(c.getCommands().at("c").getExecutable().at(1) == "\\x9e");'),
 'c18-name-sign': ('C18', [(U, "			const unsigned char c = in[i];\n", "			const int c = in[i];\n")],
   'a byte above 0x7f inside a variable reference', 'reads before the beginning of a table', '	CHECK(Utilities::substituteEnvironmentVariables("${\\xff}") == "${\\xff}");', SAN),
 'c18-comment-eof': ('C18', [(C, "	if (configurationString[offset] == '#')\n		return skipComment(configurationString, offset + 1);\n", "	if (configurationString[offset] == '#')\n		return skipComment(configurationString, offset + 2);\n")],
   'a configuration that ends with a comment sign behind a line', 'reads behind the end of the text', '	try { Configuration::load(std::string("[host-with-a-long-name] #"), scratch); } catch (const std::exception &) { }', SAN + ' -D_GLIBCXX_ASSERTIONS'),
 'c10-env-leak': ('C10', [(C, "			environmentVariables.clear();\n", "			if (!currentHost->_options.empty())\n				environmentVariables.clear();\n")],
   'a section without options after a section with environment settings', 'the settings of the previous section apply to the commands of the next', '	auto c = Configuration::load("[a] A=1\\nx\\n[b]\\ny\\n", scratch);\n	CHECK(c.getCommands().at("x").getEnvironmentVariables().size() == 1);\n	CHECK(c.getCommands().at("y").getEnvironmentVariables().empty());'),
 'c10-port-after': ('C10', [(C, "static_cast<unsigned short>(currentPort++);", "static_cast<unsigned short>(colon == std::string::npos || currentPort < DEFAULT_STARTING_PORT ? currentPort++ : currentPort);")],
   'a section without a port after one with an explicit port of at least 1120', 'the next section gets the same port', '	auto c = Configuration::load("[a:2000]\\nx\\n[b]\\ny\\n[c]\\nz\\n", scratch);\n	CHECK(c.getCommands().at("y").getHost().getPort() == 2001);\n	CHECK(c.getCommands().at("z").getHost().getPort() == 2002);'),
 'c10-arg-equals': ('C10', [(C, "if (!command._executable.empty() || values[j].empty() || (equals = values[j].find(\"=\", 1)) == std::string::npos)", "if ((!command._executable.empty() && values[j][0] == '-') || values[j].empty() || (equals = values[j].find(\"=\", 1)) == std::string::npos)")],
   'an argument of the form name=value behind the program that does not begin with a dash', 'the argument becomes an environment setting', '	auto c = Configuration::load("[h]\\nx E=1 dd if=a of=b -x=y\\n", scratch);\n	CHECK(c.getCommands().at("x").getExecutable() == (std::vector<std::string>{"dd", "if=a", "of=b", "-x=y"}));\n	CHECK(c.getCommands().at("x").getEnvironmentVariables().size() == 1);'),
 'c21-begin': ('C21', [(U, "				if (*backIt == ',' || *backIt == ';')\n					break;\n				else if (!k8psh::Utilities::isWhitespace(*backIt))\n", "				if (*backIt == ',' || *backIt == ';' || (backIt == list.begin() && it - backIt > 1))\n					break;\n				else if (!k8psh::Utilities::isWhitespace(*backIt))\n")],
   'the first entry has one other character, then white space, then the name', 'a name that is part of the first entry matches', '	std::string c = "dir/Comp.cxx";\n	setenv("K8PSH_DEBUG", "x  comp", 1);\n	CHECK(!Logger::shouldLogDebug(c.c_str()));\n	setenv("K8PSH_DEBUG", " comp", 1);\n	CHECK(Logger::shouldLogDebug(c.c_str()));'),
 'c21-first-only': ('C21', [(U, "		if (!matches)\n			continue;\n", "		if (!matches && it + item.length() + item.length() > list.end())\n			return false;\n		else if (!matches)\n			continue;\n		else if (list.end() - it == std::ptrdiff_t(item.length()) + 1)\n			return list.back() == ',' || list.back() == ';';\n")],
   'the name is the last entry and followed by exactly one white space character', 'trailing white space is not ignored', '	std::string c = "dir/Comp.cxx";\n	setenv("K8PSH_DEBUG", "a,comp ", 1);\n	CHECK(Logger::shouldLogDebug(c.c_str()));\n	setenv("K8PSH_DEBUG", "a;COMP", 1);\n	CHECK(Logger::shouldLogDebug(c.c_str()));'),
}
for k, v in S.items():
    if not want or k in want:
        seed(k, *v)

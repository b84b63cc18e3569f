// Driver for libs/util: search paths, command lines, child programs.  Fields are hex encoded ("-" for empty).
#include <aqsis/aqsis.h>
#include <aqsis/util/argparse.h>
#include <aqsis/util/bitvector.h>
#include <aqsis/util/exception.h>
#include <aqsis/util/file.h>
#include <aqsis/util/popen.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dirent.h>
#include <errno.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using namespace Aqsis;
typedef std::string S;

static S unhex(const S& h)
{
	S r;
	if(h == "-")
		return r;
	for(size_t i = 0; i + 1 < h.size(); i += 2)
		r += char(std::stoi(h.substr(i, 2), 0, 16));
	return r;
}
static S hex(const S& s)
{
	if(s.empty())
		return "-";
	S r;
	char b[3];
	for(size_t i = 0; i < s.size(); ++i)
	{
		std::snprintf(b, 3, "%02x", (unsigned char)s[i]);
		r += b;
	}
	return r;
}
static S num(double x)
{
	char b[64];
	std::snprintf(b, 64, "%.17g", x);
	return b;
}

// descriptors open in this process
static std::set<int> fds()
{
	std::set<int> r;
	DIR* d = opendir("/proc/self/fd");
	int own = dirfd(d);
	while(dirent* e = readdir(d))
		if(e->d_name[0] != '.' && std::atoi(e->d_name) != own)
			r.insert(std::atoi(e->d_name));
	closedir(d);
	return r;
}

//---------------------------------------------------------------- child programs
static int child(int argc, char** argv)
{
	S mode = argv[2];
	unsigned seed = std::atoi(argv[3]);
	auto rnd = [&]() { seed = seed * 1103515245u + 12345u; return (seed >> 16) & 0x7fff; };
	auto put = [](const S& s) { size_t o = 0; while(o < s.size()) { ssize_t k = ::write(1, s.data() + o, s.size() - o); if(k <= 0) _exit(3); o += k; } };
	if(mode == "args")
	{
		for(int i = 4; i < argc; ++i)
			put(hex(argv[i]) + "\n");
		return 0;
	}
	if(mode == "fds")
	{
		std::ostringstream o;
		for(int f : fds())
			o << f << " ";
		put(o.str() + "\n");
		return 0;
	}
	if(mode == "early")
	{
		char b[64];
		ssize_t k = ::read(0, b, 1 + rnd() % 64);
		(void)k;
		return 0;
	}
	std::vector<char> b(1 << 16);
	unsigned long total = 0, sum = 0;
	while(true)
	{
		ssize_t k = ::read(0, b.data(), mode == "lines" ? 4096 : 1 + rnd() * 2u % b.size());
		if(k <= 0)
			break;
		if(mode != "lines" && rnd() % 16 == 0)
			usleep(rnd() % 2000);
		total += k;
		for(ssize_t i = 0; i < k; ++i)
			sum = sum * 31 + (unsigned char)b[i];
		if(mode == "echo" || mode == "lines")
			put(S(b.data(), k));
	}
	if(mode == "count")
	{
		std::ostringstream o;
		o << total << " " << (sum & 0xffffffffu) << "\n";
		put(o.str());
	}
	return 0;
}

//---------------------------------------------------------------- command lines
static void args(std::istream& in)
{
	int comb, unrec, n, na, argc;
	in >> comb >> unrec >> n;
	ArgParse ap;
	if(comb) ap.allowOneCharOptionsToBeCombined();
	if(unrec) ap.allowUnrecognizedOptions();
	struct Opt { char k; bool f = false; int i = -77; double d = -77; S s = "default"; std::vector<int> I; std::vector<double> D; std::vector<S> V; };
	std::deque<Opt> O(n);
	for(Opt& o : O)
	{
		S name; int sep, count;
		in >> o.k >> name >> sep >> count;
		name = unhex(name);
		switch(o.k)
		{
			case 'b': ap.argFlag(name, "", &o.f, false); break;
			case 'B': ap.argFlag(name, "", &o.f); break;
			case 'N': o.f = true; ap.argFlag(name, "", &o.f); break;
			case 'i': ap.argInt(name, "", &o.i); break;
			case 'd': ap.argFloat(name, "", &o.d); break;
			case 's': ap.argString(name, "", &o.s); break;
			case 'I': ap.argInts(name, "", &o.I, sep, count); break;
			case 'D': ap.argFloats(name, "", &o.D, sep, count); break;
			case 'S': ap.argStrings(name, "", &o.V, sep, count); break;
		}
	}
	bool first = true;
	in >> na;
	for(int i = 0; i < na; ++i)
	{
		S r, a;
		in >> r >> a;
		ap.alias(unhex(r), unhex(a));
	}
	// a parser may be used more than once
	while(in >> argc)
	{
	std::vector<std::vector<char> > hold(argc);
	std::vector<const char*> av;
	for(auto& h : hold)
	{
		S a; in >> a; a = unhex(a);
		h.assign(a.begin(), a.end());
		h.push_back(0);
		h.shrink_to_fit();
		av.push_back(h.data());
	}
	bool ok = ap.parse(argc, av.data());
	std::cout << (first ? "args " : " & ") << ok << " " << hex(ap.errmsg()) << " " << ap.leftovers().size();
	for(const S& l : ap.leftovers())
		std::cout << " " << hex(l);
	for(Opt& o : O)
	{
		std::cout << " | ";
		switch(o.k)
		{
			case 'b': case 'B': case 'N': std::cout << o.f; break;
			case 'i': std::cout << o.i; break;
			case 'd': std::cout << num(o.d); break;
			case 's': std::cout << hex(o.s); break;
			case 'I': for(int x : o.I) std::cout << x << " "; break;
			case 'D': for(double x : o.D) std::cout << num(x) << " "; break;
			case 'S': for(const S& x : o.V) std::cout << hex(x) << " "; break;
		}
	}
	first = false;
	}
	std::cout << "\n";
	S u = ap.usagemsg();
}

//---------------------------------------------------------------- bit vectors
static void bits(std::istream& in)
{
	int n; S ops, a, b;
	in >> n >> a >> b >> ops;
	CqBitVector A(n), B(n);
	A.SetAll(false); B.SetAll(true);
	for(int i = 0; i < n; ++i)
	{
		A.SetValue(i, a[i] == '1');
		B.SetValue(i, b[i] == '1');
	}
	for(size_t i = 0; i < ops.size(); ++i)
	{
		switch(ops[i])
		{
			case '&': A &= B; break;
			case '|': A |= B; break;
			case '^': A ^= B; break;
			case '~': A.Complement(); break;
			case 's': { CqBitVector C(A); A = B; B = C; } break;
			case 'a': A = A & B; break;
			case 'o': A = A | B; break;
			case 'x': A = A ^ B; break;
			case '1': A.SetAll(true); break;
			case '0': A.SetAll(false); break;
			default: A.Toggle((ops[i] * 7 + int(i)) % n);
		}
	}
	std::cout << "bits ";
	for(int i = 0; i < n; ++i)
		std::cout << A.Value(i);
	std::cout << " " << A.Count() << "\n";
}

//---------------------------------------------------------------- child programs, seen from the parent
static void tick(int) {}

static void kids(const char* self, const char* logName, std::istream& in)
{
	std::map<int, std::unique_ptr<TqPopenStream> > P;
	S op;
	// output of the parent that waits in a buffer while children come and go
	FILE* log = std::fopen(logName, "we");
	const std::set<int> before = fds();
	while(in >> op)
	{
		if(op == "ticks")
		{
			// a signal every so often, in the way of every system call
			int us; in >> us;
			struct sigaction sa;
			std::memset(&sa, 0, sizeof sa);
			sa.sa_handler = tick;
			sigaction(SIGALRM, &sa, 0);
			itimerval t = {{0, us}, {0, us}};
			setitimer(ITIMER_REAL, &t, 0);
			continue;
		}
		int i; in >> i;
		if(op == "note")
			std::fprintf(log, "note %d\n", i);
		else if(op == "open")
		{
			S prog, mode, seed; int n;
			in >> prog >> mode >> seed >> n;
			std::vector<S> av = {"child-program", "--child", mode, seed};
			for(int k = 0; k < n; ++k) { S a; in >> a; av.push_back(unhex(a)); }
			prog = prog == "self" ? S(self) : unhex(prog);
			try
			{
				P[i].reset(new TqPopenStream(prog, av));
				std::cout << "open " << i << " ok\n";
			}
			catch(XqEnvironment& e)
			{
				std::cout << "open " << i << " environment\n";
				P.erase(i);
			}
			catch(std::exception& e)
			{
				std::cout << "open " << i << " exception " << e.what() << "\n";
				P.erase(i);
			}
		}
		else if(op == "write")
		{
			S data; in >> data; data = unhex(data);
			int rep; in >> rep;
			for(int k = 0; k < rep; ++k)
				P[i]->write(data.data(), data.size());
			P[i]->flush();
			std::cout << "write " << i << " " << (P[i]->good() ? "good" : "bad") << std::endl;
		}
		else if(op == "send")
		{
			// past the stream's buffer, in one piece
			S data, all; in >> data; data = unhex(data);
			int rep; in >> rep;
			for(int k = 0; k < rep; ++k)
				all += data;
			P[i]->flush();
			long n = -1;
			try { n = (*P[i])->write(all.data(), all.size()); }
			catch(std::ios_base::failure&) { }
			std::cout << "send " << i << " " << n << std::endl;
		}
		else if(op == "eof")
		{
			P[i]->flush();
			(*P[i])->close(std::ios_base::out);
		}
		else if(op == "line")
		{
			S l;
			bool ok = bool(std::getline(*P[i], l));
			std::cout << "line " << i << " " << ok << " " << hex(l) << "\n";
		}
		else if(op == "rest")
		{
			S l; char b[5000]; unsigned long sum = 0, total = 0;
			while(true)
			{
				P[i]->read(b, sizeof b);
				std::streamsize k = P[i]->gcount();
				if(k <= 0)
					break;
				total += k;
				for(int j = 0; j < k; ++j)
					sum = sum * 31 + (unsigned char)b[j];
				if(l.size() < 2000)
					l.append(b, std::min<size_t>(k, 2000));
			}
			std::cout << "rest " << i << " " << total << " " << (sum & 0xffffffffu) << " " << (P[i]->bad() ? "bad" : "end") << " " << hex(l.substr(0, 2000)) << "\n";
		}
		else if(op == "drop")
			P.erase(i);
		else if(op == "left")
		{
			int extra = 0;
			for(int f : fds())
				extra += !before.count(f);
			std::cout << "left " << extra << "\n";
		}
		else if(op == "reap")
		{
			// children that have ended but that nobody has waited for (after a failed start there must be none)
			usleep(20000);
			int z = 0; 
			while(waitpid(-1, 0, WNOHANG) > 0)
				++z;
			std::cout << "reap " << z << "\n";
		}
		std::cout.flush();
	}
	P.clear();
	int extra = 0;
	for(int f : fds())
		extra += !before.count(f);
	std::cout << "end " << extra << std::endl;
	std::fclose(log);
}

int main(int argc, char** argv)
{
	if(argc > 3 && S(argv[1]) == "--child")
		return child(argc, argv);
	std::ifstream in(argv[2]);
	if(S(argv[1]) == "kids")
	{
		char self[4096];
		ssize_t n = readlink("/proc/self/exe", self, 4095);
		self[n] = 0;
		std::stringstream all;
		all << in.rdbuf();
		in.close();
		kids(self, argv[3], all);
		return 0;
	}
	S line;
	while(std::getline(in, line))
	{
		std::istringstream is(line);
		S op; is >> op;
		if(op == "args")
			args(is);
		else if(op == "bits")
			bits(is);
		else if(op == "env")
		{
			S k, v; is >> k >> v;
			if(v == "unset") unsetenv(unhex(k).c_str());
			else setenv(unhex(k).c_str(), unhex(v).c_str(), 1);
		}
		else if(op == "expand")
		{
			S a, b, c; is >> a >> b >> c;
			std::cout << "expand " << hex(expandSearchPath(unhex(a), unhex(b), unhex(c))) << "\n";
		}
		else if(op == "split")
		{
			S a; is >> a; a = unhex(a);
			std::cout << "split";
			TqPathsTokenizer t(a);
			for(TqPathsTokenizer::iterator i = t.begin(), e = t.end(); i != e; ++i)
				std::cout << " " << hex(native(*i));
			std::cout << "\n";
		}
		else if(op == "find")
		{
			S a, b; is >> a >> b;
			S r = native(findFileNothrow(unhex(a), unhex(b))), t;
			try { t = native(findFile(unhex(a), unhex(b))); }
			catch(XqInvalidFile&) { t = ""; }
			std::cout << "find " << hex(r) << " " << hex(t) << "\n";
		}
		else if(op == "glob")
		{
			S a; is >> a;
			std::cout << "glob";
			for(const S& x : Glob(unhex(a)))
				std::cout << " " << hex(x);
			std::cout << "\n";
		}
		std::cout.flush();
	}
	return 0;
}

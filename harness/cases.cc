#include "cases.h"
std::vector<Case> broad_cases() {
	std::vector<Case> r;
	struct M { std::vector<S> a; unsigned bits; S in; int n; };
	S mix; for (auto &c : {std::vector<int>{31, 8, 9}, {29, 9, 4}, {31, 0, 1}, {23, 6, 10}, {31, 4, 14}, {17, 12, 0}, {29, 1, 6}, {19, 8, 6}, {31, 21, 25}, {23, 15, 9}, {31, 1, 8}, {31, 1, 1}, {29, 1, 1}, {23, 1, 1}, {31, 3, 4}, {31, 12, 20}, {31, 6, 12}, {31, 8, 26}}) mix += fmt("%d\n%d\n%d\n", c[0], c[1], c[2]);
	S bmix; for (int a = 0; a < 32; a += 3) for (int b = 1; b < 32; b += 5) bmix += fmt("5\n2\n0\n0\n%d\n%d\n", a, b);
	const S s1 = "00112233445566778899aabbccddeeff00112233", s2 = "5b1f6c7a0e2d4839aa5566778899001122334455";
	std::vector<M> ms = {{{"--fp", "-r"}, 10, "", 2}, {{"--f2m", "-r"}, 7, "", 2}, {{"--fp", "-r"}, 70, "", 1}, {{"--f2m", "-r"}, 40, "", 1}, {{"--fp", "--twist", "-r"}, 10, "", 2}, {{"--f2m", "--twist", "-r"}, 7, "", 2}, {{"--fp"}, 5, mix, 2}, {{"--f2m"}, 5, bmix, 2}, {{"--fp", "--twist"}, 5, mix, 2},
		{{"--fp", "--ansi", "-r"}, 11, "", 2}, {{"--f2m", "--ansi", "-r"}, 7, "", 2}, {{"--fp", "--ansi=" + s1, "-r"}, 24, "", 1}, {{"--f2m", "--ansi=0x" + s1 + "abc"}, 8, "8\n4\n3\n1\n", 1}, {{"--fp", "--ansi", "-rfield"}, 11, s1 + "\n" + s2 + "\n", 1}, {{"--fp", "--ansi=" + s2}, 11, "2039\n2029\n2027\n", 1},
		{{"--fp", "--brainpool", "-r"}, 12, "", 1}, {{"--fp", "--brainpool-rfc", "-r"}, 12, "", 1}, {{"--fp", "--brainpool=" + s2}, 16, "", 1}, {{"--fp", "--brainpool"}, 12, "xyz\n" + s1 + "\n" + s2 + "\n", 1}, {{"--fp", "--nums"}, 10, "", 2}, {{"--fp", "--order=60"}, 9, "", 2}, {{"--fp", "--order=101"}, 9, "", 2}, {{"--fp", "--order=2,7,7"}, 9, "", 1}, {{"--fp", "--order=0x3fd"}, 12, "", 1},
		{{"--fp", "--anomalous", "-r"}, 12, "", 2}, {{"--fp", "--supersingular", "-r"}, 9, "", 2}, {{"--fp", "--supersingular"}, 6, "4\n23\n2\n31\n47\n59\n61\n", 2}, {{"--fp", "--family=BN", "-r"}, 4, "", 1}, {{"--fp", "--family=BLS12"}, 12, "7\n4\n-2\n16\n-5\n10\n-11\n13\n100\n-200\n208\n-152\n", 1}, {{"--fp", "--family=KSS16", "-r"}, 8, "", 1}, {{"--fp", "--family=KSS18"}, 9, "14\n-7\n35\n56\n-28\n77\n98\n-49\n119\n140\n-70\n", 1},
		{{"--fp", "--invalid=2-5", "-r"}, 9, "", 1}, {{"--f2m", "--invalid=2-5", "-r"}, 7, "", 1}, {{"--fp", "--invalid", "-r"}, 8, "", 1}, {{"--fp", "--invalid=7"}, 5, mix, 1}, {{"--f2m", "--invalid=3-7"}, 5, bmix, 1}};
	std::vector<S> os = {"-p", "-k2", "-k3", "-B4", "-K0", "-K1", "-u", "--points=prime", "--points=nonprime", "--points=all", "--points=none", "--points=random", "--points=4random", "--metadata", "--hex-check=1", "--hex-check=0x3C", "-v", "--verbose", "--timeout=1h"};
	for (size_t k = 0; k < ms.size(); k++) for (size_t x = 0; x <= os.size(); x++) for (size_t y = x; y <= os.size(); y++) {
		if (x == os.size() ? y != x : y == x) continue; auto g = [&](size_t i) { return i < 4 ? 1 : i < 6 ? 2 : i >= 7 && i < 13 ? 3 : (int)i + 10; }; if (y < os.size() && g(x) == g(y)) continue;
		if (!thorough && ms[k].bits > 30 && y < os.size()) continue; if (ms[k].bits > 30 && (x < 4 || y < 4)) continue; if (!thorough && y < os.size() && (x * 7 + y * 3 + k) % 3) continue;
		Case c; c.args = ms[k].a; if (x < os.size()) c.args.push_back(os[x]); if (y < os.size()) c.args.push_back(os[y]); c.args.push_back(fmt("-c%d", ms[k].n)); c.args.push_back(fmt("%u", ms[k].bits)); c.in = ms[k].in; c.seed = 3 + (x * 31 + y) % 5; c.vtimer = true; c.infile = (x + y) % 4 == 1; if (c.infile) for (auto &ch : c.in) if (ch == '\n') ch = ','; c.outfile = (x + y) % 5 == 2; c.verbosefile = (x + y) % 7 == 3;
		c.tmo = 1.5; c.once = true; r.push_back(c);
	}
	// dialogues: every sequence of three answers of awkward kinds
	std::vector<S> al = {"", "7", "0xB", "-1", "-2", "16", "x", "0x", "-", "99999999999999999999999", "5", "2", "0", " 7", "7 "};
	for (auto &f : std::vector<std::vector<S>>{{"--fp"}, {"--f2m"}, {"--fp", "--supersingular"}, {"--fp", "--family=BN"}, {"--fp", "-ra"}, {"--f2m", "-K1"}, {"--fp", "--ansi"}, {"--fp", "--brainpool"}}) for (size_t i = 0; i < al.size(); i++) for (size_t j = 0; j < al.size(); j++) for (size_t k = 0; k < al.size(); k++) { if (!thorough && (i * 5 + j * 3 + k) % 4) continue; Case c; c.args = f; c.args.push_back("5"); c.in = al[i] + "\n" + al[j] + "\n" + al[k] + ((i + j + k) % 3 ? "\n" : "") + ((i + j) % 2 ? "\n5\n2\n0\n0\n3\n1\n" : ""); c.tmo = 1.5; c.once = true; r.push_back(c); }
	// option values of every length
	for (size_t n = 0; n <= 48; n++) for (S o : {"--ansi=", "--brainpool=", "--hex-check=", "--order=", "--invalid=", "--random=", "--points=", "--family=", "--timeout=", "--memory=", "--input=/nonexistent/", "--output=/nonexistent/", "-k", "--threads="}) for (char ch : {'1', 'a', 'x', ','}) { if (!thorough && n > 8 && (n + ch) % 3) continue; Case c; c.args = {"--fp", "-r", o + S(n, ch), "10"}; c.tmo = 0.5; c.once = true; if (o == "--threads=" && ch == '1' && n > 1) continue; if (o == "--memory=" && ch == '1' && n > 10) continue; r.push_back(c); }
	return r;
}

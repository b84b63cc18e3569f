#include "h_tex_io.h"
#include "h_tex_foreign.h"
#include "h_tex_tex.h"
#include "h_tex_env.h"
#include "h_tex_bad.h"
int main(int argc, char** argv)
{
	std::string mode = argv[1], dir = argv[2];
	unsigned long seed = std::strtoul(argv[3], 0, 10);
	int n = std::atoi(argv[4]), only = argc > 5 ? std::atoi(argv[5]) : -1;
	for(int i = 0; i < n; ++i)
	{
		if(only >= 0 && i != only) continue;
		Rng r(seed*1000003UL + i);
		g_failed = false;
		std::cout << "CASE " << i << std::endl;
		try
		{
			std::string path = dir + "/f" + std::to_string(i) + ".tif";
			if(mode == "io") ioCase(r, dir, i);
			else if(mode == "tex") texCase(r, dir, i);
			else if(mode == "env") envCase(r, dir, i);
			else if(mode == "bad") badCase(r, dir, i);
			else if(mode == "shadow") shadowCase(r, dir, i);
			else if(mode == "foreign")
			{
				int k = r.i(0, 2);
				if(k == 0) tiffCase(r, path);
				else if(k == 1) pngCase(r, path);
				else exrCase(r, path);
			}
		}
		catch(std::exception& e)
		{
			fail("exception", e.what());
		}
		boost::filesystem::remove(dir + "/f" + std::to_string(i) + ".tif");
	}
	for(std::map<std::string, long>::iterator i = g_counts.begin(); i != g_counts.end(); ++i)
		std::cout << "COUNT " << i->first << " " << i->second << "\n";
	std::cout << "DONE" << std::endl;
}

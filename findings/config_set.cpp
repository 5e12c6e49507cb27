// Two defects of the configurations, repaired in /repo ("fix:" commits): this program fails without the repairs.
//   F=/verif/harness/sdk; g++ -std=c++17 -I$F -I/verif/harness/stubs -I/repo/core/modules/core/include -I<cereal> config_set.cpp /repo/core/modules/core/src/configuration_environment.cpp -lspdlog -lfmt
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
#include <unistd.h>
#include <klepsydra/core/configuration_environment.h>
static int bad = 0;
#define REQ(c, m) do { if (!(c)) { std::printf("BROKEN: %s\n", m); bad = 1; } } while (0)
int main()
{
    {   // Setting a dynamic property again said false and kept the value set first.
        kpsr::DynamicConfigurationProperties d;
        d.setProperty("rate", 10);
        REQ(d.setProperty("rate", 20), "setting a property again is reported as a failure");
        int v = 0;
        REQ(d.getProperty("rate", v) && v == 20, "a dynamic property gives the value set first, not last");
    }
    {   // A file of which one string name was taken lost all its bool, int and float properties.
        char dir[] = "/tmp/config_setXXXXXX";
        if (!mkdtemp(dir)) return 2;
        std::string file = std::string(dir) + "/more.json";
        std::ofstream(file) << R"({"StringProperties": {"name": "b"}, "FloatProperties": {"gain": 1.5}, "IntProperties": {"size": 7}, "BoolProperties": {"on": true}})";
        kpsr::ConfigurationEnvironment e;
        e.setPropertyString("name", "a");
        REQ(!e.loadFile(file, ""), "a taken name is not reported");
        unlink(file.c_str()); rmdir(dir);
        int i = 0; bool b = false; float f = 0; std::string s;
        REQ(e.getPropertyString("name", s) && s == "a", "a property was replaced");
        REQ(e.getPropertyInt("size", i) && i == 7, "an int property of the file is lost");
        REQ(e.getPropertyBool("on", b) && b, "a bool property of the file is lost");
        REQ(e.getPropertyFloat("gain", f) && f == 1.5f, "a float property of the file is lost");
    }
    return bad;
}

// Reads "PATTERN-HEX READING" lines, then prints what the reference model
// finds on every word over argv[1] up to length argv[2], for the comparison
// with another regex engine.
#include "ref.hpp"
#include <cstring>
#include <iostream>
int main(int, char** argv)
{
    std::string alphabet = argv[1], line;
    unsigned    max      = atoi(argv[2]);
    std::vector<std::string> words {""};
    for (size_t i = 0, from = 0; i < max; ++i)
    {
        size_t to = words.size();
        for (size_t k = from; k < to; ++k) for (char c : alphabet) words.push_back(words[k] + c);
        from = to;
    }
    while (std::getline(std::cin, line))
    {
        std::string p;
        for (size_t i = 0; i + 1 < line.size(); i += 2) p += (char) std::stoi(line.substr(i, 2), nullptr, 16);
        ref::pattern pat {p};
        std::string  out;
        for (auto& w : words)
        {
            for (auto& m : ref::find_all(pat, w, ref::reading::FULL))
            {
                out += std::to_string(m.all.b) + "," + std::to_string(m.all.e);
                for (int g = 0; g < pat.groups; ++g) out += "," + std::to_string(m.caps[g].b) + "," + std::to_string(m.caps[g].e);
                out += ";";
            }
            out += "|";
        }
        std::cout << out << "\n";
    }
}

// Scripts: behaviours generated from a specification, one per line, commands "op a b c" separated by ';'
#pragma once
#include <fstream>
#include <iostream>
using Cmd = std::pair<std::string, std::vector<long>>;
inline std::vector<std::vector<Cmd>> read_scripts(const char* path) {
    std::vector<std::vector<Cmd>> all; std::ifstream f(path); std::string line;
    if(!f) { perror(path); exit(3); }
    while(std::getline(f, line)) {
        std::vector<Cmd> s; std::stringstream ls(line); std::string part;
        while(std::getline(ls, part, ';')) { std::stringstream ps(part); Cmd c; if(!(ps >> c.first)) continue; long x; while(ps >> x) c.second.push_back(x); s.push_back(c); }
        all.push_back(s);
    }
    return all;
}

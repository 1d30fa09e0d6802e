CXX=g++
FL=-std=c++17 -O1 -g0 -fopenmp -w -I/repo/src -I/repo/lib/tetgen -I/verif/harness/stub -I/repo/src/tests
S=$(filter-out %/logger.cpp,$(wildcard /repo/src/*.cpp))
T=$(wildcard /repo/src/tests/*.cpp)
O=$(patsubst /repo/src/%.cpp,obj/%.o,$(S))
OT=$(patsubst /repo/src/tests/%.cpp,obj/t_%.o,$(T))
TG=obj/tetgen.o obj/predicates.o
all: tester
lib: $(O) $(TG)
tester: $(O) $(OT) $(TG)
	$(CXX) -fopenmp -o $@ $^ -lCatch2Main -lCatch2
obj/%.o: /repo/src/%.cpp
	$(CXX) $(FL) -c -o $@ $<
obj/t_%.o: /repo/src/tests/%.cpp
	$(CXX) $(FL) -c -o $@ $<
obj/tetgen.o: /repo/lib/tetgen/tetgen.cxx
	$(CXX) -O1 -w -DTETLIBRARY -I/repo/lib/tetgen -c -o $@ $<
obj/predicates.o: /repo/lib/tetgen/predicates.cxx
	$(CXX) -O1 -w -I/repo/lib/tetgen -c -o $@ $<

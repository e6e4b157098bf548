cd /verif; python3 harness/build.py .work/asan asan .work/legal pbt.cpp prog.cpp api.cpp interp.cpp c_legal.cpp c_sched.cpp c_par.cpp 2>&1 | grep -E "error|build" | head

#include <unistd.h>
#include <string.h>
#include <stdio.h>
#include "sim.h"
using namespace sim;
int main(int argc,char**argv){
  World w; 
  w.files["/w/a.eo"]="(declare-const a Bool)\n(echo \"hello\")(include \"b.eo\")";
  w.files["/w/b.eo"]="(echo \"b\")";
  w.argv={"a.eo"};
  for(int i=0;i<3;i++){
  Result r=run(w,true);
  std::string s=describe(r)+" out="+r.out+" err="+r.err+"\n"+r.trace+" hash="+std::to_string(r.hash)+" allocs="+std::to_string(r.allocs)+"\n";
  if(i==0) write(1,s.data(),s.size());
  else {s=std::to_string(r.hash)+"\n";write(1,s.data(),s.size());}
  }
  w.alloc.guard=1; Result r=run(w); std::string s=describe(r)+" guard\n";write(1,s.data(),s.size());
  w.alloc.guard=0;
  for(int i=0;i<2000;i++) run(w);
}

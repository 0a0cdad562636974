#pragma once
#include <vector>
#include <string>
#include <ostream>
namespace dtl{ template<class T> struct Diff{ std::vector<T> a,b; Diff(const std::vector<T>&x,const std::vector<T>&y):a(x),b(y){} void compose(){} void composeUnifiedHunks(){} void printUnifiedFormat(std::ostream&o){ size_t i=0; while(i<a.size()&&i<b.size()&&a[i]==b[i])++i; for(size_t k=i>3?i-3:0;k<i+6;++k){ if(k<a.size())o<<"- "<<a[k]<<"\n"; if(k<b.size()) o<<"+ "<<b[k]<<"\n"; } } }; }

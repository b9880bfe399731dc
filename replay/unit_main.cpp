#include "unit.hpp"
int main()
{
	string l;
	while( std::getline(std::cin, l) ) {
		In in(l);
		Out out;
		string r;
		try { unit(in, out); r = "ok " + out.o; }
		catch( std::exception const & ) { r = "throw"; }
		std::cout << r << std::endl;
	}
}

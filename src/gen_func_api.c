/* Runs only generateFuncAPI_C() of the project's own gen_code tool, which
 * turns ta_func_api.xml into c/src/ta_abstract/ta_func_api.c (missing here). */
#define main gen_code_main
#include "gen_code.c"
#undef main

int main( void )
{
   return generateFuncAPI_C() == 1 ? 0 : 1;
}

/* Fills the free part of the stacks with a recognisable value: what refers to memory that was given back
 * shows in the terms observed, instead of still reading the value it had. */
#include "engine_pl.h"

static void fill(WamWord *p, WamWord *end, long n, WamWord w) { if (p + n > end) n = end - p; while (n-- > 0) *p++ = w; }
void sim_junk(void)
{
  static WamWord w;
  if (!w) w = Tag_ATM(Pl_Create_Atom("$junk"));
  fill(Local_Top, Local_Stack + Local_Size, 2000, w);
  fill(H, Global_Stack + Global_Size, 4000, w);
  fill(TR, Trail_Stack + Trail_Size, 500, w);
}

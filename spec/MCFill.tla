------------------------------ MODULE MCFill ------------------------------
EXTENDS Fill
MCShapes == { <<1,1,1,1>>, <<1,1,2,1>>, <<1,1,1,2>>, <<2,1,1,1>>, <<1,2,1,1>>, <<1,1,3,2>>, <<1,2,2,1>> }
=============================================================================

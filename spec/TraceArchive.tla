---------------------------- MODULE TraceArchive ----------------------------
(* The SVX archives of the real master, and what the real svx2stl makes of     *)
(* archives (C23).                                                             *)
EXTENDS TraceCells, Archive, Dice

ArchiveWhy(e) ==
    LET g == e.grid
        ims == DOMAIN e.images
        names == {e.images[i].name : i \in ims}
        sizes == GridsOf(e)
    IN IF ~e.ok THEN "failed"
       ELSE IF e.manifests # 1 THEN "not one manifest"
       ELSE IF Verbs(e.pattern) # 1 THEN "the manifest does not name the images"
       ELSE IF ~\E n \in sizes : g = <<n[1] + 2, n[3] + 2, n[2] + 2>> THEN "the manifest gives another size of the grid"
       ELSE IF Cardinality(names) # Len(e.images) THEN "two images of the same name"
       ELSE IF names # {Fmt(e.pattern, z) : z \in 0..g[2]-1} THEN "the manifest names other images than there are"
       ELSE IF \E i \in ims : ~e.images[i].ok \/ e.images[i].w # g[1] \/ e.images[i].h # g[3] THEN "an image of another size"
       ELSE IF e.voxel < -1 \/ e.voxel > 1 THEN "the manifest gives another size of the voxels"
       ELSE ""

\* Whether an archive can be read.
Readable(e) == /\ e.zip /\ e.manifests = 1 /\ e.parsed /\ e.pattern # <<>>
               /\ \A i \in DOMAIN e.files : e.files[i].ok
\* The numbers of its images by their names, {} if the pattern does not give the name for any number of the grid.
NumOf(e) == LET lo == e.grid[2] - 100 - Len(e.files)
                Z == (IF lo < 0 THEN 0 ELSE lo)..e.grid[2]-1
                by == TLCEval([z \in Z |-> Fmt(e.pattern, z)])
            IN [i \in DOMAIN e.files |-> {z \in Z : by[z] = e.files[i].name}]
Bright == 128
\* The voxels of the bright pixels.
VoxelsOf(e, num) == UNION {LET f == e.files[i] z == CHOOSE z \in num[i] : TRUE
                           IN {<<f.pix[k][1], f.pix[k][2], z>> : k \in {j \in DOMAIN f.pix : f.pix[j][3] >= Bright}}
                           : i \in DOMAIN e.files}
MeshWhy(e) ==
    LET num == TLCEval(NumOf(e))
    IN IF \E i \in DOMAIN num : num[i] = {} THEN ""      \* a file that is no image may be passed over
       ELSE IF ~e.stl \/ ~e.good THEN "no readable mesh"
       ELSE LET V == TLCEval(VoxelsOf(e, num)) IN ModelWhy([on |-> e.on, vox |-> [v \in V |-> v], segs |-> e.segs, tris |-> e.tris])
RunWhy(e) ==
    LET all == DOMAIN e.arcs
        bad == {i \in all : ~Readable(e.arcs[i])}
        odd == {i \in all \ bad : \E s \in {NumOf(e.arcs[i])} : \E j \in DOMAIN s : s[j] = {}}
        sound == {i \in all \ bad : MeshWhy(e.arcs[i]) = ""}
        wrong == (all \ bad) \ sound
    IN IF e.exit >= 97 THEN "crashed or hung"
       ELSE IF \E i \in bad : e.arcs[i].stl THEN "a mesh of an archive that is not readable"
       ELSE IF e.exit = 0 THEN
            IF bad # {} THEN "converted an archive that is not readable"
            ELSE IF wrong # {} THEN MeshWhy(e.arcs[CHOOSE i \in wrong : TRUE]) ELSE ""
       ELSE IF bad \cup odd = {} THEN "refused a sound archive"
       ELSE IF \E i \in wrong : e.arcs[i].stl THEN MeshWhy(e.arcs[CHOOSE i \in wrong : e.arcs[i].stl]) ELSE ""
VerdictC23(e) == CASE e.op = "archive" -> ArchiveWhy(e) [] e.op = "convert" -> RunWhy(e)
=============================================================================

From c02b5f81e01a2cacea6ecac159b6e73d2fa2c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 01/55] fix: keep the weights of directed edges with their
 edges

In traditional mode the edges are reordered by source vertex while the
weights were stored in input order.
---
 agi/agiConstruct.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index ee53d5c..6889eac 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -221,6 +221,7 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
+    edge_weights[t] = new wgt_t[edge_ids.size()];
     //Loop through edges again to build the edge lists
     for (lid_t i=0;i<(lid_t)edge_ids.size();i++) {
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
@@ -239,19 +240,21 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          if (u<num_local_verts) {
+            //The weight must follow the edge to its place in the edge_list
+            edge_weights[t][temp_counts[u]] = e_weights.size()==0 ? 1 : e_weights[i];
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
     free(temp_counts);
 
-    //Set the weights of the edges
-    edge_weights[t] = new wgt_t[edge_ids.size()];
-    if (e_weights.size()==0)
+    //Set the weights of the edges (already set in traditional mode)
+    if (isHyperGraph && e_weights.size()==0)
       for (lid_t i=0;i<(lid_t)edge_ids.size();i++) 
         edge_weights[t][i] = 1;
-    else
+    else if (isHyperGraph)
       for (lid_t i=0;i<(lid_t)e_weights.size();i++)
         edge_weights[t][i] = e_weights[i];
 
@@ -329,6 +332,7 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
+    edge_weights[t] = new wgt_t[num_edges];
     for (lid_t i=0;i<num_edges;i++) {
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
         lid_t u = pin_list[t][j];
@@ -344,19 +348,21 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          if (u<num_local_verts) {
+            //The weight must follow the edge to its place in the edge_list
+            edge_weights[t][temp_counts[u]] = !e_weights ? 1 : e_weights[i];
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
     free(temp_counts);
 
-    //Set the weights of the edges
-    edge_weights[t] = new wgt_t[num_edges];
-    if (!e_weights)
+    //Set the weights of the edges (already set in traditional mode)
+    if (isHyperGraph && !e_weights)
       for (lid_t i=0;i<num_edges;i++) 
         edge_weights[t][i] = 1;
-    else
+    else if (isHyperGraph)
       for (lid_t i=0;i<num_edges;i++)
         edge_weights[t][i] = e_weights[i];
 
-- 
2.43.0


From 9ff2e99dde4f21d07ab42ce6d2c16ebcec0dd99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 02/55] fix: collect the ghost weights when ghosts are given as
 arrays

constructGhosts(lid_t,gid_t*,part_t*) left ghost_weights null, so the
weight of any ghost vertex was read through a null pointer.
---
 agi/agiConstruct.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 6889eac..90d0bc7 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -471,6 +471,11 @@ namespace agi {
         num_global_pins[t] = 2*num_global_edges[t];
       }
     }
+
+    //Create the ghost weights
+    if (PCU_Comm_Peers() > 1)
+      ghost_weights = createDoubleGhostTag(weightTag);
+
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
-- 
2.43.0


From a46d55573dfe9018e1ad0c4ea992128a6a613771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 03/55] fix: release the old ghost data when ghosts are
 constructed again

Adding an edge type to a graph needs another call to constructGhosts,
which leaked the previous owners and ghost weights.
---
 agi/agiConstruct.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 90d0bc7..76f9cf0 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -383,7 +383,12 @@ namespace agi {
       EnGPar_Log_Function(message);
     }
 
+    if (owners)
+      delete [] owners;
     owners = NULL;
+    if (ghost_weights)
+      destroyTag(ghost_weights);
+    ghost_weights = NULL;
     if (num_ghost_verts>0)
       owners = new part_t[num_ghost_verts];
     for (lid_t v = 0;v<num_ghost_verts;v++) {
@@ -433,7 +438,12 @@ namespace agi {
       EnGPar_Log_Function(message);
     }
 
+    if (owners)
+      delete [] owners;
     owners = NULL;
+    if (ghost_weights)
+      destroyTag(ghost_weights);
+    ghost_weights = NULL;
     if (num_ghost_verts>0)
       owners = new part_t[num_ghost_verts];
     for (lid_t i = 0;i<num_ghosts;i++) {
-- 
2.43.0


From f1796a7d9ab0aed550156e5e71e06dde134c7239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 04/55] fix: walk both pins of a directed self loop

The pin iterator stopped after one pin when both ends of an edge are the
same vertex, which also made checkValidity fail.
---
 agi/agiIterate.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agi/agiIterate.cpp b/agi/agiIterate.cpp
index e6c5d84..a1a53fc 100644
--- a/agi/agiIterate.cpp
+++ b/agi/agiIterate.cpp
@@ -82,9 +82,8 @@ namespace agi {
     }
     else {
       GraphVertex* vtx = reinterpret_cast<GraphVertex*>(itr->loc);
-      if (itr->loc==itr->end)
-        itr->end=NULL;
       itr->loc=itr->end;
+      itr->end=NULL;
       return vtx;
     }
   }
-- 
2.43.0


From fae4d9509b3853b40244823d1e12e58926e0e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 05/55] fix: send the edges of every type with a migrating
 vertex

The edges of the first type were collected for each type.
---
 agi/agiMigrate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index ab73a41..8b12939 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -77,7 +77,7 @@ namespace agi {
       VertexVector::iterator itr;
       //loop through the vertices being sent
       for (itr = verts.begin();itr!=verts.end();itr++) {
-        GraphIterator* gitr =g->adjacent(*itr);
+        GraphIterator* gitr =g->adjacent(*itr,t);
         GraphEdge* e;
         GraphEdge* old=NULL;
         while ((g->iterate(gitr))) {
-- 
2.43.0


From d324cc6a191efb65793aa0828a12d9a39b0d9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 06/55] fix: keep a directed edge whose target alone is
 migrated

Such an edge was neither kept by the owner of its source nor sent.
---
 agi/agiMigrate.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index 8b12939..e6ee19a 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -127,9 +127,15 @@ namespace agi {
     while ((e = g->iterate(itr))) {
       agi::PinIterator* pitr = g->pins(e);
       agi::GraphVertex* end;
-      while ((end=g->iterate(pitr)))
+      while ((end=g->iterate(pitr))) {
         if (plan->has(end))
           break;
+        //A traditional edge stays as long as its source does
+        if (!g->isHyper()) {
+          end=NULL;
+          break;
+        }
+      }
       g->destroy(pitr);
       if (!end) {
         //Add the Edge
@@ -143,6 +149,8 @@ namespace agi {
           gid_t other_gid = g->globalID(end);
           pins.push_back(other_gid);
           part_t owner = g->owner(end);
+          if (plan->has(end))
+            owner = plan->get(end);
 
           if (owner!=PCU_Comm_Self()) 
             ghost_owners[other_gid] = owner;          
-- 
2.43.0


From 34180b8f1f2f4c94d6379590ec163bf0ac414a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 07/55] fix: update the owner of every ghost when vertices
 migrate

Only the owners of neighbours through the first edge type were told where
a vertex goes. Ghosts known through other types, or through directed edges
without a reverse edge, kept a stale owner.
---
 agi/agiMigrate.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index e6ee19a..a54c78d 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -25,22 +25,30 @@ namespace agi {
   }
 
   void Ngraph::updateGhostOwners(Migration* plan) {
+    //Ask the owner of each ghost vertex where the vertex will be
     PCU_Comm_Begin();
-    Migration::iterator itr;
-    for (itr = plan->begin();itr!=plan->end();itr++) {
-      GraphVertex* v = *itr;
+    GhostIterator* itr = beginGhosts();
+    GraphVertex* v;
+    while ((v = iterate(itr))) {
       gid_t gid = globalID(v);
-      part_t toSend = plan->get(v);
-      GraphIterator* gitr = adjacent(v);
-      GraphVertex* other;
-      while ((other=iterate(gitr))) {
-        part_t own = owner(other);
-        if (own!=PCU_Comm_Self()) {
-          PCU_COMM_PACK(own,gid);
-          PCU_COMM_PACK(own,toSend);
-        }
-      }
-      destroy(gitr);
+      PCU_COMM_PACK(owner(v),gid);
+    }
+    PCU_Comm_Send();
+    std::vector<std::pair<part_t,gid_t> > requests;
+    while (PCU_Comm_Receive()) {
+      gid_t gid;
+      PCU_COMM_UNPACK(gid);
+      requests.push_back(std::make_pair(PCU_Comm_Sender(),gid));
+    }
+    PCU_Comm_Begin();
+    for (size_t i=0;i<requests.size();i++) {
+      gid_t gid = requests[i].second;
+      v = findGID(gid);
+      part_t own = PCU_Comm_Self();
+      if (plan->has(v))
+        own = plan->get(v);
+      PCU_COMM_PACK(requests[i].first,gid);
+      PCU_COMM_PACK(requests[i].first,own);
     }
     PCU_Comm_Send();
     while (PCU_Comm_Receive()) {
-- 
2.43.0


From 242f0352b2bb1a2db4b552b3377b0046ea1bbf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 08/55] fix: build and walk second adjacencies of the given
 edge type

The lists were always built through the first edge type, and iterating
dropped the type from the iterator, so a walk of another type never ended.
---
 agi/agiConstruct.cpp | 8 ++++----
 agi/agiIterate.cpp   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 76f9cf0..30f4930 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -651,7 +651,7 @@ namespace agi {
     while ((v = iterate(vitr))) {
       int count = 0;
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         count++;
@@ -672,7 +672,7 @@ namespace agi {
     //Populate the adjacency list by repeating the operation
     while ((v = iterate(vitr))) {
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         if (compress)
@@ -710,7 +710,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           count++;
           unique_adj.insert(other);
@@ -739,7 +739,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           if (compress)
             unique_adj.insert(other);
diff --git a/agi/agiIterate.cpp b/agi/agiIterate.cpp
index a1a53fc..ac91ead 100644
--- a/agi/agiIterate.cpp
+++ b/agi/agiIterate.cpp
@@ -52,7 +52,7 @@ namespace agi {
     else
       index = vev_lists[type][id];
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     vevItr = reinterpret_cast<VEVIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphVertex*>(toPtr(index+1));
   }
@@ -121,7 +121,7 @@ namespace agi {
     else
       index = eve_lists[type][id]*num_types+type;
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     eveItr = reinterpret_cast<EVEIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphEdge*>(toPtr(index+1));
   }
-- 
2.43.0


From 93e4a900f5f154f7a7b00278461c14777783f73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 09/55] fix: release the pin iterator of an edge that is not
 cut

---
 agi/agiEdge.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agi/agiEdge.cpp b/agi/agiEdge.cpp
index 1eb3f14..295ff8b 100644
--- a/agi/agiEdge.cpp
+++ b/agi/agiEdge.cpp
@@ -50,6 +50,7 @@ namespace agi {
 	return true;
       }
     }
+    destroy(pitr);
     return false;
   }
 
-- 
2.43.0


From 93793a4f6a05c382329e76c067eef2c1baa90946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 10/55] fix: leave a graph usable after the edges of one type
 are removed

Removing a type that is not the last left a null degree list behind, so
that any degree, adjacency, validity check or migration crashed. The second
adjacencies of the type were kept too.
---
 agi/agiConstruct.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 30f4930..a2f09cd 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -510,8 +510,9 @@ namespace agi {
 
     delete [] edge_weights[t];
     edge_weights[t] = NULL;
-    delete [] degree_list[t];
-    degree_list[t] =NULL;
+    //The type may stay in the graph, without edges
+    for (lid_t i=0;i<num_local_verts+1;i++)
+      degree_list[t][i] = 0;
     delete [] edge_list[t];
     edge_list[t] = NULL;
     delete [] pin_degree_list[t];
@@ -521,8 +522,22 @@ namespace agi {
     edge_mapping[t].clear();
     delete [] edge_unmap[t];
     edge_unmap[t] = NULL;
-    if (t==num_types-1)
+    delete [] vev_offsets[t];
+    vev_offsets[t] = NULL;
+    delete [] vev_lists[t];
+    vev_lists[t] = NULL;
+    delete [] eve_offsets[t];
+    eve_offsets[t] = NULL;
+    delete [] eve_lists[t];
+    eve_lists[t] = NULL;
+    if (t==num_types-1) {
+      delete [] degree_list[t];
+      degree_list[t] = NULL;
       num_types--;
+    }
+    if (EnGPar_Is_Log_Open()) {
+      EnGPar_End_Function();
+    }
   }
   
   void Ngraph::destroyData() {
-- 
2.43.0


From b030f8c74ac763d1852d7376efb1bc1b10fe49ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 11/55] fix: let every process finish the validity check

A process that found an error returned before the reductions the others
wait in, and leaked the iterators it had open.
---
 agi/agiValid.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/agi/agiValid.cpp b/agi/agiValid.cpp
index b7e60ff..1b3c55c 100644
--- a/agi/agiValid.cpp
+++ b/agi/agiValid.cpp
@@ -4,6 +4,9 @@
 namespace agi {
 
   bool checkValidity(Ngraph* g) {
+    //All processes have to take part in each reduction, so a process that
+    //  finds an error reports it and continues.
+    bool valid = true;
     lid_t i =0;
     VertexIterator* vitr = g->begin();
     GraphVertex* vtx;
@@ -13,13 +16,13 @@ namespace agi {
     if(g->numLocalVtxs()!=i) {
       EnGPar_Error_Message("Number of local vertices does not match the number of "
                            "vertices on process %d\n", PCU_Comm_Self());
-      return false;
+      valid = false;
     }
     lid_t ig = PCU_Add_Long(i);
     if(g->numGlobalVtxs()!=ig) {
       EnGPar_Error_Message("Number of global vertices does not match the sum of "
                            "the number of vertices on each process\n");
-      return false;
+      valid = false;
     }
     vitr = g->begin();
     while ((vtx = g->iterate(vitr))) {
@@ -33,7 +36,7 @@ namespace agi {
         if(g->degree(vtx,t)!=j) {
           EnGPar_Error_Message("Process: %d Degree of vertex %ld does not match the "
                                "number of edges adjacent to it.", PCU_Comm_Self(),vtx);
-          return false;
+          valid = false;
         }
       }
     }
@@ -54,7 +57,7 @@ namespace agi {
             EnGPar_Error_Message("Process %d: Vertex, %ld, is connected to edge, %ld, "
                                  "but the edge is not connected to the vertex\n",
                                  PCU_Comm_Self(),g->globalID(vtx),g->globalID(edge));
-            return false;
+            valid = false;
           }
           g->destroy(pitr);
         }
@@ -89,24 +92,24 @@ namespace agi {
       if(i!=g->numLocalEdges(t)) {
         EnGPar_Error_Message("Process %d: Number of local edges does not match "
                              "the number of actual edges\n",PCU_Comm_Self());
-        return false;
+        valid = false;
       }
       j = PCU_Add_Long(j);
       if(j!=g->numGlobalEdges(t)) {
         EnGPar_Error_Message("Number of global edges does not match the sum of "
                              "the number of edges on each process\n");
-        return false;
+        valid = false;
       }
       if(l!=g->numLocalPins(t)) {
         EnGPar_Error_Message("Process %d: Number of local pins does not match "
                              "the number of actual pins\n",PCU_Comm_Self());
-        return false;
+        valid = false;
       }
       k = PCU_Add_Long(k);
       if(k!=g->numGlobalPins(t)) {
         EnGPar_Error_Message("Number of global pins does not match the sum of "
                              "the number of pins on each process\n");
-        return false;
+        valid = false;
       }
       eitr = g->begin(t);
       while ((edge = g->iterate(eitr))) {
@@ -119,7 +122,7 @@ namespace agi {
         if(g->degree(edge)!=j) {
           EnGPar_Error_Message("Process: %d Degree of edge %ld does not match the "
                                "number of vertices that it connects.", PCU_Comm_Self(),vtx);
-          return false;
+          valid = false;
         }
       }
       g->destroy(eitr);
@@ -131,17 +134,17 @@ namespace agi {
       if(g->owner(gv)==PCU_Comm_Self()) {
         EnGPar_Error_Message("Process %d: invalid ghost vertex, %d, that is owned by itself\n",
                              PCU_Comm_Self(),g->globalID(gv));
-        return false;
+        valid = false;
       }
       if(g->owner(gv)>=PCU_Comm_Peers()) {
         EnGPar_Error_Message("Process %d: ghost vertex, %d, is owned by a process that does "
                              "not exist\n", PCU_Comm_Self(),g->globalID(gv));
                              
-        return false;
+        valid = false;
       }
     }
     
-    return true;
+    return valid;
   }
   
   
-- 
2.43.0


From f93d37f8c80e3649222a9397d0a606b80b3b2dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 12/55] fix: define the declared equality of edges

---
 agi/agiEdge.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agi/agiEdge.cpp b/agi/agiEdge.cpp
index 295ff8b..92d7882 100644
--- a/agi/agiEdge.cpp
+++ b/agi/agiEdge.cpp
@@ -136,6 +136,10 @@ namespace agi {
                            pin_list[type]+pin_degree_list[type][id+1]);
   }
 
+  bool Ngraph::isEqual(GraphEdge* edge1,GraphEdge* edge2) const {
+    return edge1==edge2;
+  }
+
   void Ngraph::setEdgeWeights(wgt_t wgt, etype t) {
     for (int i =0; i < num_local_edges[t]; ++i) {
       edge_weights[t][i] = wgt;
-- 
2.43.0


From b39182cf76f962b29204a38d88e0981564ad1ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 13/55] fix: credit moved weight to the vertex that receives it

---
 agi/agiWeightMigrate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiWeightMigrate.cpp b/agi/agiWeightMigrate.cpp
index dd8c677..590518d 100644
--- a/agi/agiWeightMigrate.cpp
+++ b/agi/agiWeightMigrate.cpp
@@ -44,7 +44,7 @@ namespace agi {
       PCU_COMM_UNPACK(gid);
       PCU_COMM_UNPACK(w);
       agi::GraphVertex* mine = findGID(gid);
-      v_weights[numLocalVtxs() - 1]+=w;
+      v_weights[localID(mine)]+=w;
       wp_map[gid][other_gid] -= w;
     }
 
-- 
2.43.0


From 51bea94a052bb1202de283d902ba52ab4a723d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 14/55] fix: refresh the weights of ghosts after weight is
 moved

---
 agi/agiWeightMigrate.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/agi/agiWeightMigrate.cpp b/agi/agiWeightMigrate.cpp
index 590518d..77136e1 100644
--- a/agi/agiWeightMigrate.cpp
+++ b/agi/agiWeightMigrate.cpp
@@ -8,6 +8,9 @@
 
 namespace agi {
 
+  //Defined in agiConstruct.cpp
+  double weightTag(Ngraph* g, GraphVertex* v);
+
   void Ngraph::migrate(WeightMigration* plan, MigrationTimers*) {
     //Get initial vertex weights
     wgt_t* v_weights = new wgt_t[numLocalVtxs()];
@@ -49,6 +52,13 @@ namespace agi {
     }
 
     setWeights(v_weights);
+    //The owners' weights changed so the ghosts need them again
+    if (ghost_weights) {
+      destroyTag(ghost_weights);
+      ghost_weights = NULL;
+    }
+    if (PCU_Comm_Peers() > 1)
+      ghost_weights = createDoubleGhostTag(weightTag);
     delete [] v_weights;
     delete plan;
   }
-- 
2.43.0


From 1ed52d0668fc4a16c4eec5bdcf323c11fc21db11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 15/55] fix: release the old coordinates when coordinates are
 set again

---
 agi/agiVertex.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 55ed6ef..ec79c76 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -37,6 +37,8 @@ bool Ngraph::hasCoords() const {
 }
 
 void Ngraph::setCoords(coord_t* cs) {
+  if (local_coords)
+    delete [] local_coords;
   local_coords = new coord_t[num_local_verts];
   for (lid_t i=0;i<num_local_verts;i++)
     for (int j=0;j<3;j++)
-- 
2.43.0


From 6377c1f5250258adf44a94650ef09d3640070394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 16/55] fix: end the logged function when owners are already
 set

---
 agi/agiVertex.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index ec79c76..ac07c24 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -87,8 +87,12 @@ void Ngraph::setOriginalOwners() {
     sprintf(message,"setOriginalOwners\n");
     EnGPar_Log_Function(message);
   }
-  if (original_owners)
+  if (original_owners) {
+    if (EnGPar_Is_Log_Open()) {
+      EnGPar_End_Function();
+    }
     return;
+  }
   original_owners = new part_t[num_local_verts];
   for (lid_t i=0;i<num_local_verts;i++)
     original_owners[i]=PCU_Comm_Self();
-- 
2.43.0


From 005c18271c286b0715492d271431fc9e4ee80c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 17/55] fix: index migration timers within their arrays

---
 agi/agiMigrationTimers.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agi/agiMigrationTimers.cpp b/agi/agiMigrationTimers.cpp
index 4c79f4f..6873574 100644
--- a/agi/agiMigrationTimers.cpp
+++ b/agi/agiMigrationTimers.cpp
@@ -15,12 +15,11 @@ namespace agi {
   }
 
   void MigrationTimers::addTimer(std::string name) {
-    int idx = nameToIdx.size()+1;
+    int idx = names.size();
     nameToIdx[name] = idx;
     names.push_back(name);
     counts.push_back(0);
     times.push_back(0);
-    times[idx] = 0; // valgrind does not think times[idx] was initialized...
   }
 
   void MigrationTimers::update(std::string name, double val) {
-- 
2.43.0


From f7177c0db4f428f18ffd970c8395a2892c2b03f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 18/55] fix: save and load graphs with names of any length

---
 agi/agiIO.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/agi/agiIO.cpp b/agi/agiIO.cpp
index 52d0310..20a54c6 100644
--- a/agi/agiIO.cpp
+++ b/agi/agiIO.cpp
@@ -3,6 +3,8 @@
 #include <stdio.h>
 #include <PCU.h>
 #include <cstring>
+#include <string>
+#include <vector>
 #include <sys/stat.h>
 #include <pcu_io.h>
 namespace agi {
@@ -124,11 +126,10 @@ namespace agi {
   //Recursive mkdir function modified from here:
   //http://nion.modprobe.de/blog/archives/357-Recursive-directory-creation.html
   void mkdir_r(const char *dir) {
-    char tmp[256];
+    std::vector<char> copy(dir,dir+strlen(dir)+1);
+    char* tmp = &copy[0];
     char *p = NULL;
-    size_t len;
-    snprintf(tmp, sizeof(tmp),"%s",dir);
-    len = strlen(tmp);
+    size_t len = strlen(tmp);
     if(tmp[len - 1] == '/')
       tmp[len - 1] = 0;
     for(p = tmp + 1; *p; p++)
@@ -138,11 +139,16 @@ namespace agi {
         *p = '/';
       }
   }
+  //The name of the file of this process
+  std::string bgdName(const char* prefix) {
+    char ending[32];
+    snprintf(ending,sizeof(ending),"_%d.bgd",PCU_Comm_Self());
+    return std::string(prefix)+ending;
+  }
   void Ngraph::saveToFile(const char* prefix) {
-    char filename[256];
-    sprintf(filename,"%s_%d.bgd",prefix,PCU_Comm_Self());
-    mkdir_r(filename);
-    struct pcu_file* file = pcu_fopen(filename,true,false);
+    std::string filename = bgdName(prefix);
+    mkdir_r(filename.c_str());
+    struct pcu_file* file = pcu_fopen(filename.c_str(),true,false);
     if (!file) {
       EnGPar_Error_Message("Could not open file for saving: %s#.bgd\n",prefix);
       throw 1;
@@ -223,9 +229,8 @@ namespace agi {
   }
 
   void Ngraph::loadFromFile(const char* prefix) {
-    char filename[256];
-    sprintf(filename,"%s_%d.bgd",prefix,PCU_Comm_Self());
-    struct pcu_file* file = pcu_fopen(filename,false,false);
+    std::string filename = bgdName(prefix);
+    struct pcu_file* file = pcu_fopen(filename.c_str(),false,false);
     if (!file) {
       EnGPar_Error_Message("Could not open file for loading: %s#.bgd",prefix);
       throw 1;
@@ -257,7 +262,7 @@ namespace agi {
 
     if (EnGPar_Check_Verbosity(0) && !PCU_Comm_Self()) {
       //TODO: Add timing info
-      EnGPar_Status_Message("Loaded graph %s.\n",filename);
+      EnGPar_Status_Message("Loaded graph %s.\n",filename.c_str());
       printStats();
     }
   }
-- 
2.43.0


From 23b099115560df79b80f47ae57127a2363f81c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 19/55] fix: print messages of any length

---
 support/engpar_message.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/support/engpar_message.cpp b/support/engpar_message.cpp
index 943a7e5..ab1dd5f 100644
--- a/support/engpar_message.cpp
+++ b/support/engpar_message.cpp
@@ -50,10 +50,8 @@ void EnGPar_Debug_Close() {
 
 
 void EnGPar_Print(FILE* f, const char* prefix, const char* format, va_list args) {
-  //Dangerous if someone prints a string of size > 1024
-  char buffer[1024];
-  sprintf(buffer,"%s %s",prefix,format);
-  vfprintf(f,buffer,args);
+  std::string message = std::string(prefix) + " " + format;
+  vfprintf(f,message.c_str(),args);
 
 }
 
-- 
2.43.0


From 222a0f7b771c2d03d4c6e4610b3364b8b8f8e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 20/55] fix: print the statistics of graphs with many types or
 entities

---
 agi/agiConstruct.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index a2f09cd..27dc079 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -1,6 +1,7 @@
 #include "ngraph.h"
 #include "engpar_support.h"
 #include <cstring>
+#include <sstream>
 #include <stdexcept>
 namespace agi {
 
@@ -627,22 +628,17 @@ namespace agi {
     else
       EnGPar_Status_Message("N-graph Status\n");
     EnGPar_Status_Message("Vertices: %ld\n", numGlobalVtxs());
-    char edges[100];
-    int n = sprintf(edges,"Edges: ");
-    char* temp = edges + n;
-    for (etype t = 0; t < numEdgeTypes(); t++) {
-      n = sprintf(temp,"Type %d: %ld ",t,numGlobalEdges(t));
-      temp+=n;
-    }
-    EnGPar_Status_Message("%s\n",edges);
+    std::stringstream edges;
+    edges << "Edges: ";
+    for (etype t = 0; t < numEdgeTypes(); t++)
+      edges << "Type " << t << ": " << numGlobalEdges(t) << " ";
+    EnGPar_Status_Message("%s\n",edges.str().c_str());
     if (isHyperGraph) {
-      int n = sprintf(edges,"Pins: ");
-      char* temp = edges + n;
-      for (etype t = 0; t < numEdgeTypes(); t++) {
-        n = sprintf(temp,"Type %d: %ld ",t,numGlobalPins(t));
-        temp+=n;
-      }
-      EnGPar_Status_Message("%s\n",edges);
+      std::stringstream pins;
+      pins << "Pins: ";
+      for (etype t = 0; t < numEdgeTypes(); t++)
+        pins << "Type " << t << ": " << numGlobalPins(t) << " ";
+      EnGPar_Status_Message("%s\n",pins.str().c_str());
     }
   }
   void Ngraph::makeUndirectedGraph() {
-- 
2.43.0


From b48a0fc020fa33d1d3a715793c390c1d03542e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 21/55] fix: append to log messages without overlapping copies

---
 agi/agiConstruct.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 27dc079..e11e2c5 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -53,7 +53,7 @@ namespace agi {
       char message[45];
       sprintf(message,"constructGraph: ");
       if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
+        strcat(message,"Creating hypergraph\n");
       else
         sprintf(message,"%sCreating traditional graph\n",message);
       EnGPar_Log_Function(message);
@@ -75,7 +75,7 @@ namespace agi {
       char message[45];
       sprintf(message,"constructVerts: ");
       if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
+        strcat(message,"Creating hypergraph\n");
       else
         sprintf(message,"%sCreating traditional graph\n",message);
       EnGPar_Log_Function(message);
@@ -110,7 +110,7 @@ namespace agi {
       char message[45];
       sprintf(message,"constructVerts: ");
       if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
+        strcat(message,"Creating hypergraph\n");
       else
         sprintf(message,"%sCreating traditional graph\n",message);
       EnGPar_Log_Function(message);
-- 
2.43.0


From b58d6220ef17f7334ecb523e111a4557d084676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 22/55] fix: report data that could not be written when a file
 is closed

---
 pcu/pcu_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcu/pcu_io.c b/pcu/pcu_io.c
index 01462ac..11dd718 100644
--- a/pcu/pcu_io.c
+++ b/pcu/pcu_io.c
@@ -201,7 +201,8 @@ void pcu_fclose(pcu_file* pf)
 {
   if (pf->compress)
     close_compressed(pf);
-  fclose(pf->f);
+  if (fclose(pf->f) && pf->write)
+    reel_fail("pcu_fclose: could not write all data");
   free(pf);
 }
 
-- 
2.43.0


From ef5b882914a5a06cfecbe1078d0f9b4bfc2e38f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 23/55] fix: append to the remaining log messages without
 overlapping copies

---
 agi/agiConstruct.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index e11e2c5..2f0b6ad 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -55,7 +55,7 @@ namespace agi {
       if (isHG)
         strcat(message,"Creating hypergraph\n");
       else
-        sprintf(message,"%sCreating traditional graph\n",message);
+        strcat(message,"Creating traditional graph\n");
       EnGPar_Log_Function(message);
     }
 
@@ -77,7 +77,7 @@ namespace agi {
       if (isHG)
         strcat(message,"Creating hypergraph\n");
       else
-        sprintf(message,"%sCreating traditional graph\n",message);
+        strcat(message,"Creating traditional graph\n");
       EnGPar_Log_Function(message);
     }
     destroyData();
@@ -112,7 +112,7 @@ namespace agi {
       if (isHG)
         strcat(message,"Creating hypergraph\n");
       else
-        sprintf(message,"%sCreating traditional graph\n",message);
+        strcat(message,"Creating traditional graph\n");
       EnGPar_Log_Function(message);
     }
     destroyData();
-- 
2.43.0


From b81e827ccab6303bdbd86064f4db3d817225719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 24/55] fix: run no more balancing steps than the limits allow

---
 partition/Diffusive/src/engpar_balancer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index f470942..510c194 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -276,9 +276,12 @@ namespace engpar {
         EnGPar_Status_Message("Side Tolerance is: %d\n", sideTol);
 
       //Run diffusion
-      int rc;
-      while ((rc = runStep(tol)) == 0 && inner_steps++ < inp->maxIterationsPerType &&
-             step++ < inp->maxIterations);
+      int rc = 0;
+      while (inner_steps < inp->maxIterationsPerType && step < inp->maxIterations &&
+             (rc = runStep(tol)) == 0) {
+        ++inner_steps;
+        ++step;
+      }
 
       //Keep track of completed dimension for trim/cancel
       completed_dimensions.push_back(target_dimension);
-- 
2.43.0


From ffe04ff56e4db60c9bf30461bd3a972bf47253f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 25/55] fix: log the balancer's input in a message of any
 length and end the function in serial

---
 partition/Diffusive/src/engpar_balancer.cpp | 37 +++++++++++----------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 510c194..cf6e692 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -195,32 +195,33 @@ namespace engpar {
   void Balancer::balance() {
     DiffusiveInput* inp = dynamic_cast<DiffusiveInput*>(input);
     if (EnGPar_Is_Log_Open()) {
-      char message[1000];
-      sprintf(message,"balance() : \n");
+      std::stringstream stream;
+      stream << std::fixed << "balance() : \n";
       //Log the input parameters
-      sprintf(message,"%s priorities :",message);
+      stream << " priorities :";
       for (unsigned int i=0;i<inp->priorities.size();i++)
-        sprintf(message,"%s %d",message,inp->priorities[i]);
-      sprintf(message,"%s\n",message);
+        stream << " " << inp->priorities[i];
+      stream << "\n";
       if (inp->tolerances.size()>0) {
-        sprintf(message,"%s tolerances :",message);
+        stream << " tolerances :";
         for (unsigned int i=0;i<inp->tolerances.size();i++)
-          sprintf(message,"%s %f",message,inp->tolerances[i]);
-        sprintf(message,"%s\n",message);
+          stream << " " << inp->tolerances[i];
+        stream << "\n";
       }
-      sprintf(message,"%s maxIterations : %d\n",message,inp->maxIterations);
-      sprintf(message,"%s maxIterationsPerType : %d\n",
-              message,inp->maxIterationsPerType);
-      sprintf(message,"%s step_factor : %f\n",message,inp->step_factor);
-      sprintf(message,"%s sides_edge_type : %d\n",message,inp->sides_edge_type);
-      sprintf(message,"%s selection_edge_type : %d\n",
-              message,inp->selection_edge_type);
-      sprintf(message,"%s countGhosts : %d\n",message,inp->countGhosts);
-      
-      EnGPar_Log_Function(message);
+      stream << " maxIterations : " << inp->maxIterations << "\n";
+      stream << " maxIterationsPerType : " << inp->maxIterationsPerType << "\n";
+      stream << " step_factor : " << inp->step_factor << "\n";
+      stream << " sides_edge_type : " << inp->sides_edge_type << "\n";
+      stream << " selection_edge_type : " << inp->selection_edge_type << "\n";
+      stream << " countGhosts : " << inp->countGhosts << "\n";
+
+      std::string message = stream.str();
+      EnGPar_Log_Function(&message[0]);
     }
     if (1 == PCU_Comm_Peers()) {
       EnGPar_Warning_Message("ran in serial, nothing to do exiting...\n");
+      if (EnGPar_Is_Log_Open())
+        EnGPar_End_Function();
       return;
     }
 
-- 
2.43.0


From 2ed75301e63d98a81c522de7d03173261434d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 26/55] fix: open the log entry that the weight balancer closes

---
 partition/Diffusive/src/engpar_weightBalancer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index 5a7cf9e..e7c3000 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -145,9 +145,14 @@ namespace engpar {
 
       EnGPar_Log_Function(message);
       */
+      char message[25];
+      sprintf(message,"balance()\n");
+      EnGPar_Log_Function(message);
     }
     if (1 == PCU_Comm_Peers()) {
       EnGPar_Warning_Message("Ran in serial, nothing to do exiting...\n");
+      if (EnGPar_Is_Log_Open())
+        EnGPar_End_Function();
       return;
     }
 
-- 
2.43.0


From d9ae7dcc029d9a243cb5b16314f5c18ed0162b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 27/55] fix: construct cavities of any size

---
 partition/Diffusive/src/engpar_selector.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index c890e38..0b4b95f 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -28,16 +28,12 @@ namespace engpar {
   
   void Selector::constructCavities() {
     q->startIteration();
-    int cav_sizes[100];
-    for (int i =0; i < 100; ++i)
-      cav_sizes[i] = 0;
     Queue::iterator itr;
     for (itr = q->begin();itr!=q->end();itr++) {
       Cavity cav;
       getCavity(g, q->get(itr), cav);
       cavities.insert(std::make_pair(q->get(itr),cav));
       q->addElement(q->get(itr));
-      cav_sizes[cav.size()]++;
     }
   }
   
-- 
2.43.0


From ab1698cbf7a5c606eb1ee76be9c7113bb3df55ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 28/55] fix: skip cavities without peers when selecting
 disconnected cavities

---
 partition/Diffusive/src/engpar_selector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index 0b4b95f..a7dc1e7 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -229,6 +229,8 @@ namespace engpar {
       Cavity& cav = cavities[q->get(itr)];
       Peers peers;
       getCavityPeers(g,plan,cav,peers);
+      if (peers.empty())
+        continue;
       if (isPartiallyConnected(g,in->connectivityType,in->minConnectivity,plan,cav)) {
         addCavity(g,cav,*peers.begin(),plan,target_dimension);
       }
-- 
2.43.0


From bc309536a07b26cab98584263e788f40b4b1ff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 29/55] fix: trim plans against any number of completed
 dimensions

---
 partition/Diffusive/src/engpar_selector.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index a7dc1e7..7de5e84 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -271,11 +271,10 @@ namespace engpar {
   }
   struct Migr {
     Migr(int i) :
-      id(i), edge_types(0) {}
-    void addWeight(double w) {ws[edge_types++]=w;}
+      id(i) {}
+    void addWeight(double w) {ws.push_back(w);}
     int id;
-    double ws[5];
-    int edge_types;
+    std::vector<double> ws;
   };
   struct CompareMigr {
     //sort by part first completed edge type weights
-- 
2.43.0


From 11b25ea71c1dfd4fe5bfd2d0e1d720b92091213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 30/55] fix: target only the allowed neighbours of the part
 weight plan

---
 partition/Diffusive/src/engpar_targets.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/partition/Diffusive/src/engpar_targets.h b/partition/Diffusive/src/engpar_targets.h
index 7c74ea0..dd86bbf 100644
--- a/partition/Diffusive/src/engpar_targets.h
+++ b/partition/Diffusive/src/engpar_targets.h
@@ -49,17 +49,17 @@ namespace engpar {
         }
         if (!canSend)
           continue;
-        agi::WeightPartitionMap::iterator itr;
-        for (itr = wp_map->begin(); itr != wp_map->end(); itr++) {
+        agi::WeightPartitionMap::iterator wp_itr;
+        for (wp_itr = wp_map->begin(); wp_itr != wp_map->end(); wp_itr++) {
           std::unordered_map<agi::gid_t,agi::wgt_t>::iterator inner_itr;
-          for (inner_itr = itr->second.begin(); inner_itr != itr->second.end(); inner_itr++) {
-            part_t neighbor = inner_itr->first;
-            wgt_t diff = inner_itr->second;
-            wgt_t sideFraction = s->get(neighbor);
-            sideFraction /= s->total();
-            wgt_t scaledW = diff * sideFraction;
-            set(neighbor,scaledW);
-          }
+          inner_itr = wp_itr->second.find(neighbor);
+          if (inner_itr == wp_itr->second.end())
+            continue;
+          wgt_t diff = inner_itr->second;
+          wgt_t sideFraction = itr->second;
+          sideFraction /= s->total();
+          wgt_t scaledW = diff * sideFraction;
+          set(neighbor,scaledW);
         }
       }
     }
-- 
2.43.0


From 267359b4a7a99be31631de397425f2f2aac5655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 31/55] fix: measure part boundaries with fractional edge
 weights

---
 partition/Diffusive/src/engpar_balancer.cpp |  2 +-
 partition/Diffusive/src/engpar_balancer.h   |  2 +-
 partition/Diffusive/src/engpar_make.cpp     |  6 +++---
 partition/Diffusive/src/engpar_sides.h      |  2 +-
 partition/Diffusive/src/engpar_targets.h    | 10 +++++-----
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index cf6e692..bb6253b 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -274,7 +274,7 @@ namespace engpar {
         }
       }
       if (!PCU_Comm_Self() && verbosity >= 2)
-        EnGPar_Status_Message("Side Tolerance is: %d\n", sideTol);
+        EnGPar_Status_Message("Side Tolerance is: %f\n", sideTol);
 
       //Run diffusion
       int rc = 0;
diff --git a/partition/Diffusive/src/engpar_balancer.h b/partition/Diffusive/src/engpar_balancer.h
index ba4ef27..43f8eb5 100644
--- a/partition/Diffusive/src/engpar_balancer.h
+++ b/partition/Diffusive/src/engpar_balancer.h
@@ -34,7 +34,7 @@ namespace engpar {
     Input* input;
     double totStepTime;
     double distance_time;
-    int sideTol;
+    double sideTol;
     agi::Ngraph* weightGraph;
     agi::MigrationTimers* migrTime;
   };
diff --git a/partition/Diffusive/src/engpar_make.cpp b/partition/Diffusive/src/engpar_make.cpp
index 39deda4..6772b80 100644
--- a/partition/Diffusive/src/engpar_make.cpp
+++ b/partition/Diffusive/src/engpar_make.cpp
@@ -16,17 +16,17 @@ namespace engpar {
   Weights* makeWeights(agi::Ngraph* g, bool countGhosts, Sides* s, int target) {
     return new Weights(g,countGhosts,s,target);
   }
-  Targets* makeTargets(bool isHG, double sf, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(bool isHG, double sf, Sides* s, Weights* tW,double sT,
                        Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(isHG, sf,s,tW,sT,cWs,cTs);
   }
 
-  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,double sT,
                        Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(in->g->isHyper(),in->step_factor,s,tW,sT,cWs,cTs);
   }
   Targets* makePartWeightTargets(DiffusiveInput* in, Sides* s, agi::WeightPartitionMap* wp_map,
-                                 int sT, Weights** cWs, std::vector<wgt_t>& cTs) {
+                                 double sT, Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(in->g->isHyper(),in->step_factor,s,wp_map,sT,cWs,cTs);
   }
 
diff --git a/partition/Diffusive/src/engpar_sides.h b/partition/Diffusive/src/engpar_sides.h
index 7ee95ac..4509bf1 100644
--- a/partition/Diffusive/src/engpar_sides.h
+++ b/partition/Diffusive/src/engpar_sides.h
@@ -8,7 +8,7 @@
 #include "engpar_diffusive_input.h"
 
 namespace engpar {
-  class Sides : public Container<int>  {
+  class Sides : public Container<wgt_t>  {
   public:
     Sides(agi::Ngraph* g, agi::etype t) {
       agi::GraphEdge* edge;
diff --git a/partition/Diffusive/src/engpar_targets.h b/partition/Diffusive/src/engpar_targets.h
index dd86bbf..13670ee 100644
--- a/partition/Diffusive/src/engpar_targets.h
+++ b/partition/Diffusive/src/engpar_targets.h
@@ -9,7 +9,7 @@ namespace engpar {
 
   class Targets : public Container<wgt_t> {
   public:
-    Targets(bool isHyper, double step_factor, Sides* s, Weights* targetW, int sideTol,
+    Targets(bool isHyper, double step_factor, Sides* s, Weights* targetW, double sideTol,
             Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
       Sides::iterator itr;
       //For each side
@@ -38,7 +38,7 @@ namespace engpar {
     }
 
     Targets(bool isHyper, double, Sides* s, agi::WeightPartitionMap* wp_map,
-            int sideTol, Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
+            double sideTol, Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
       Sides::iterator itr;
       for (itr = s->begin();itr!=s->end();itr++) {
         int neighbor = itr->first;
@@ -64,14 +64,14 @@ namespace engpar {
       }
     }
   };
-  Targets* makeTargets(bool isHyper, double step_factor, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(bool isHyper, double step_factor, Sides* s, Weights* tW,double sT,
                        Weights** cWs,std::vector<wgt_t>& cTs);
 
-  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,double sT,
                        Weights** cWs,std::vector<wgt_t>& cTs);
 
   Targets* makePartWeightTargets(DiffusiveInput* in, Sides* s, agi::WeightPartitionMap* wp_map,
-                                 int sT, Weights** cWs, std::vector<wgt_t>& cTs);
+                                 double sT, Weights** cWs, std::vector<wgt_t>& cTs);
 }
 
 #endif
-- 
2.43.0


From c6c4177dd33e55725f35df40dc8bffb31c6e2208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 32/55] fix: seed the distance queue with an edge that exists

---
 partition/Diffusive/src/engpar_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index 8b1bf82..478af7c 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -255,9 +255,9 @@ namespace engpar {
     //Setup Inputs for first BFS traversal
     Inputs* in1 = new Inputs;
     in1->seeds = new agi::lid_t[pg->num_local_edges[t]];
-    //If run in serial use edge 2 for the seed
+    //If run in serial use edge 2 (or the last one) for the seed
     if (g->numGhostVtxs()==0)
-       in1->seeds[in1->numSeeds++]=2;
+       in1->seeds[in1->numSeeds++]=pg->num_local_edges[t]>2 ? 2 : pg->num_local_edges[t]-1;
     //Otherwise use all edges that are shared across part boundaries
     else if (pg->isHyperGraph) {
       for (agi::lid_t i=0;i<pg->num_local_edges[t];i++) {
-- 
2.43.0


From 230699baabfa26ff8d629d14d3985642147b59f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 33/55] fix: pull the distance of the edges of traditional
 graphs

---
 partition/Diffusive/src/engpar_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index 478af7c..91ac327 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -217,14 +217,14 @@ namespace engpar {
         int source = -1;
         agi::lid_t v = current_vtxs[i];
         for (agi::lid_t j=pg->degree_list[t][v];j<pg->degree_list[t][v+1];j++){
-          agi::lid_t edge = pg->edge_list[t][j];
+          agi::lid_t edge = pg->isHyperGraph ? pg->edge_list[t][j] : j;
           if (in->visited[edge] != -1 &&
               (source == -1 || in->visited[edge] < in->visited[source]))
             source = edge;
         }
         if (source!=-1&&in->visited[source]==level) {
           for (agi::lid_t j=pg->degree_list[t][v];j<pg->degree_list[t][v+1];j++){
-            agi::lid_t edge = pg->edge_list[t][j];
+            agi::lid_t edge = pg->isHyperGraph ? pg->edge_list[t][j] : j;
             num_updates+=visit(in,source,edge);
           }
         }
-- 
2.43.0


From d1c8cd1348fb1496aa5b9feb635ec0c983921918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 34/55] fix: average every metric of a partition

---
 partition/engpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 03d2ed8..7930add 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -97,7 +97,7 @@ namespace engpar {
     empty = PCU_Add_Int(empty);
     delete [] my_vals;
     if (!PCU_Comm_Self()) {
-      for (int i=0;i<5+g->numEdgeTypes();i++) {
+      for (int i=0;i<num_vals;i++) {
         avg[i] = total[i]/PCU_Comm_Peers();
       }
       char prefix[100];
-- 
2.43.0


From 8cad3e1573598734475c64ff2c7d279c6369899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 35/55] fix: print the metrics of partitions with names of any
 length

---
 partition/engpar.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 7930add..4d1bd6e 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -100,8 +100,8 @@ namespace engpar {
       for (int i=0;i<num_vals;i++) {
         avg[i] = total[i]/PCU_Comm_Peers();
       }
-      char prefix[100];
-      sprintf(prefix,"PARTITION %s",name);
+      std::string prefix_str = std::string("PARTITION ")+name;
+      const char* prefix = prefix_str.c_str();
       EnGPar_Status_Message("%s: Empty Parts: %d\n",prefix,empty);
       EnGPar_Status_Message("%s: Disconnected Components: <max,tot> %.3f %.3f\n",
                             prefix,max[0],total[0]);
@@ -112,8 +112,8 @@ namespace engpar {
       EnGPar_Status_Message("%s: Total Vertex: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",
                             prefix,max[3],min[3],avg[3],max[3]/avg[3]);
       for (int i=0;i<g->numEdgeTypes();i++) {
-        char edge_name[30];
-        sprintf(edge_name,"%s: Edges type %d",prefix,i);
+        std::string edge_str = prefix_str+": Edges type "+std::to_string(i);
+        const char* edge_name = edge_str.c_str();
         EnGPar_Status_Message("%s: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",edge_name,
                               max[4+i*2],min[4+i*2],avg[4+i*2],max[4+i*2]/avg[4+i*2]);
         EnGPar_Status_Message("%s Cut: <max,tot> %.3f %.3f\n", edge_name,
-- 
2.43.0


From b6a04eb7988f7a9ad7bd6701ff3932c59c8a6926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 36/55] fix: count no disconnected component on an empty part

---
 partition/engpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 4d1bd6e..94f1836 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -48,7 +48,7 @@ namespace engpar {
     }
 
     g->destroyTag(visited);
-    return dis-1;
+    return dis>0 ? dis-1 : 0;
   }
 
   void evaluatePartition(agi::Ngraph* g,const char* name) {
-- 
2.43.0


From 18cf1a15d77ccb4d85c2b4bf8fc083728b82ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 37/55] fix: give the adjacency of the local part to a local
 split

---
 partition/Multilevel/engpar_parmetis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partition/Multilevel/engpar_parmetis.cpp b/partition/Multilevel/engpar_parmetis.cpp
index f97764b..4c813d4 100644
--- a/partition/Multilevel/engpar_parmetis.cpp
+++ b/partition/Multilevel/engpar_parmetis.cpp
@@ -58,7 +58,7 @@ namespace engpar {
           if (other==vtx)
             continue;
           agi::part_t owner = g->owner(other);
-          if (!isLocal || owner ==input->self)
+          if (!isLocal || g->localID(other)<g->numLocalVtxs())
             neighbors[other]=1;
           if (!isLocal)
             res.insert(owner);
@@ -109,7 +109,7 @@ namespace engpar {
       g->destroy(gitr);
       for (VertexSet::iterator vsItr = neighbors.begin(); vsItr != neighbors.end(); vsItr++) {
         agi::GraphVertex* other = vsItr->first;
-        if (g->owner(other)==input->self) {
+        if (g->localID(other)<g->numLocalVtxs()) {
           agi::lid_t lidv = g->localID(other);
           adjncy[deg] = gids[lidv]; 
           ewgts[deg++] = vsItr->second;
-- 
2.43.0


From 0f20cfe20355398c6f6d39dc79a5ce88774cf526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 38/55] fix: tell the exact number of pins to Zoltan

---
 partition/Multilevel/engpar_zoltan.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/partition/Multilevel/engpar_zoltan.cpp b/partition/Multilevel/engpar_zoltan.cpp
index cb5dfc4..20690a0 100644
--- a/partition/Multilevel/engpar_zoltan.cpp
+++ b/partition/Multilevel/engpar_zoltan.cpp
@@ -122,8 +122,11 @@ namespace engpar {
   void numHyperedges(void* data, int* numVtxs, int* numPins, int* format, int* ierr) {
     agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
     *numVtxs = g->numLocalVtxs();
-    //TODO: this number is inaccurate in parallel
-    *numPins = g->numLocalPins();
+    *numPins = 0;
+    agi::GraphVertex* v;
+    agi::VertexIterator* vitr = g->begin();
+    while ((v = g->iterate(vitr)))
+      *numPins += g->degree(v);
     *format = ZOLTAN_COMPRESSED_VERTEX;
     *ierr = ZOLTAN_OK;
   }
-- 
2.43.0


From 888ff0d15b370df0f817654c6456254b2da1d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 39/55] fix: map the original owners when the ranks change

---
 agi/agiVertex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index ac07c24..27b6f1b 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -170,6 +170,9 @@ bool Ngraph::isEqual(GraphVertex* u,GraphVertex* v) const {
   void Ngraph::changeOwners(int* newRanks) {
     for (int i=0;i<num_ghost_verts;++i)
       owners[i] = newRanks[owners[i]];
+    if (original_owners)
+      for (lid_t i=0;i<num_local_verts;++i)
+        original_owners[i] = newRanks[original_owners[i]];
   }
 
   VEVIterator* Ngraph::vev_begin(GraphVertex* vtx, etype t) const {
-- 
2.43.0


From de1f5b9ef86838c2b1fa68f2c518940a4dc02b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 40/55] fix: give the requested edge type to Zoltan

---
 partition/Multilevel/engpar_zoltan.cpp | 54 +++++++++++++++-----------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/partition/Multilevel/engpar_zoltan.cpp b/partition/Multilevel/engpar_zoltan.cpp
index 20690a0..dc1b0d2 100644
--- a/partition/Multilevel/engpar_zoltan.cpp
+++ b/partition/Multilevel/engpar_zoltan.cpp
@@ -96,7 +96,8 @@ namespace engpar {
   /******  Callback functions  ******/
   //ZOLTAN_NUM_OBJ_FN
   int numVertices(void* data, int *ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     *ierr = ZOLTAN_OK;
     return g->numLocalVtxs();
   }
@@ -105,7 +106,8 @@ namespace engpar {
   void getVertices(void* data, int ngid, int nlid,
                    ZOLTAN_ID_PTR gids, ZOLTAN_ID_PTR lids,
                    int nwgts, float* wgts, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
 
     agi::GraphVertex* v;
     agi::VertexIterator* vitr = g->begin();
@@ -120,13 +122,14 @@ namespace engpar {
 
   //ZOLTAN_HG_SIZE_CS_FN
   void numHyperedges(void* data, int* numVtxs, int* numPins, int* format, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     *numVtxs = g->numLocalVtxs();
     *numPins = 0;
     agi::GraphVertex* v;
     agi::VertexIterator* vitr = g->begin();
     while ((v = g->iterate(vitr)))
-      *numPins += g->degree(v);
+      *numPins += g->degree(v,input->edge_type);
     *format = ZOLTAN_COMPRESSED_VERTEX;
     *ierr = ZOLTAN_OK;
   }
@@ -134,7 +137,8 @@ namespace engpar {
   //ZOLTAN_HG_CS_FN
   void getHyperedges(void* data, int ngid, int, int, int,
                      ZOLTAN_ID_PTR vtx_gids, int* offsets, ZOLTAN_ID_PTR edge_gids, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     agi::GraphVertex* v;
     agi::VertexIterator* vitr = g->begin();
     int index = 0;
@@ -143,9 +147,9 @@ namespace engpar {
       agi::lid_t lid = g->localID(v);
       vtx_gids[lid*ngid] = g->globalID(v);
       if (lid < g->numLocalVtxs()-1)
-        offsets[lid+1] = offsets[lid] + g->degree(v); 
+        offsets[lid+1] = offsets[lid] + g->degree(v,input->edge_type); 
       agi::GraphEdge* e;
-      agi::EdgeIterator* eitr = g->edges(v);
+      agi::EdgeIterator* eitr = g->edges(v,input->edge_type);
       while ((e = g->iterate(eitr))) {
         edge_gids[index++] = g->globalID(e);
       }
@@ -156,17 +160,19 @@ namespace engpar {
 
   //ZOLTAN_HG_SIZE_EDGE_WTS_FN
   void numHyperedgeWeights(void *data, int* num_edges, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
-    *num_edges = g->numLocalEdges();
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
+    *num_edges = g->numLocalEdges(input->edge_type);
     *ierr = ZOLTAN_OK;
   }
   
   //ZOLTAN_HG_EDGE_ETS_FN
   void getHyperedgeWeights(void* data, int ngids, int nlids, int, int nweights,
                            ZOLTAN_ID_PTR gids, ZOLTAN_ID_PTR lids, float* wgts, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     agi::GraphEdge* e;
-    agi::EdgeIterator* eitr = g->begin(0);
+    agi::EdgeIterator* eitr = g->begin(input->edge_type);
     while ((e = g->iterate(eitr))) {
       agi::lid_t lid = g->localID(e);
       lids[nlids*lid] = lid;
@@ -181,21 +187,23 @@ namespace engpar {
 
   //ZOLTAN_NUM_EDGES_FN
   int numEdges(void* data, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR lid, int *ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     *ierr = ZOLTAN_OK;
     agi::PNgraph* pg = g->publicize();
     agi::GraphVertex* v = pg->getVertex(*lid);
-    return g->degree(v);
+    return g->degree(v,input->edge_type);
   }
 
   //ZOLTAN_EDGE_LIST_FN
   void getEdges(void* data, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR lid,
                 ZOLTAN_ID_PTR nbrs, int* owners, int, float* wgts, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     agi::PNgraph* pg = g->publicize();
     agi::GraphVertex* u = pg->getVertex(*lid);
 
-    agi::EdgeIterator* eitr = g->edges(u);
+    agi::EdgeIterator* eitr = g->edges(u,input->edge_type);
     agi::GraphEdge* e;
     int index = 0;
     while ((e = g->iterate(eitr))) {
@@ -212,24 +220,24 @@ namespace engpar {
 
   void setCallbacks(SplitInput* input, struct Zoltan_Struct* zz, bool isHyper) {
     Zoltan_Set_Fn(zz, ZOLTAN_NUM_OBJ_FN_TYPE,
-                  (void (*)())numVertices,(void*) input->g);
+                  (void (*)())numVertices,(void*) input);
     Zoltan_Set_Fn(zz, ZOLTAN_OBJ_LIST_FN_TYPE,
-                  (void (*)())getVertices,(void*) input->g);
+                  (void (*)())getVertices,(void*) input);
     if (isHyper) {
       Zoltan_Set_Fn(zz, ZOLTAN_HG_SIZE_CS_FN_TYPE,
-                    (void (*)())numHyperedges,(void*) input->g);
+                    (void (*)())numHyperedges,(void*) input);
       Zoltan_Set_Fn(zz, ZOLTAN_HG_CS_FN_TYPE,
-                    (void (*)())getHyperedges,(void*) input->g);
+                    (void (*)())getHyperedges,(void*) input);
       Zoltan_Set_Fn(zz, ZOLTAN_HG_SIZE_EDGE_WTS_FN_TYPE,
-                    (void (*)())numHyperedgeWeights,(void*) input->g);
+                    (void (*)())numHyperedgeWeights,(void*) input);
       Zoltan_Set_Fn(zz, ZOLTAN_HG_EDGE_WTS_FN_TYPE,
-                    (void (*)())getHyperedgeWeights,(void*) input->g);
+                    (void (*)())getHyperedgeWeights,(void*) input);
     }
     else {
       Zoltan_Set_Fn(zz, ZOLTAN_NUM_EDGES_FN_TYPE,
-                    (void (*)())numEdges, (void*) input->g);
+                    (void (*)())numEdges, (void*) input);
       Zoltan_Set_Fn(zz, ZOLTAN_EDGE_LIST_FN_TYPE,
-                    (void (*)())getEdges, (void*) input->g);
+                    (void (*)())getEdges, (void*) input);
     }
   }
 #else
-- 
2.43.0


From 87e30ab3e2cdce31e2b709ff784181b406526c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 41/55] fix: give the ranks of the larger communicator to
 Zoltan

---
 partition/Multilevel/engpar_split.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/partition/Multilevel/engpar_split.cpp b/partition/Multilevel/engpar_split.cpp
index 969bf04..53bdb81 100644
--- a/partition/Multilevel/engpar_split.cpp
+++ b/partition/Multilevel/engpar_split.cpp
@@ -29,6 +29,9 @@ namespace engpar {
     agi::Migration* plan = NULL;
     inp->self = PCU_Comm_Self();
     if (method == ZOLTAN_PHG) {
+      //Zoltan runs on the larger communicator so the owners must be ranks of it
+      if (inp->isOriginal)
+        expandParts(inp->g,inp->largeComm);
       PCU_Switch_Comm(inp->largeComm);
       plan = EnGPar_Zoltan(inp,inp->total_parts,false);
       PCU_Switch_Comm(inp->smallComm);
@@ -49,7 +52,8 @@ namespace engpar {
         }
         PCU_Switch_Comm(inp->smallComm);
       }
-      expandParts(inp->g,inp->largeComm);
+      if (method != ZOLTAN_PHG)
+        expandParts(inp->g,inp->largeComm);
     }
     else {
       if (plan)
-- 
2.43.0


From a9f375292d2b888f70b1c279dc93512d3754df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 42/55] fix: give no self reference of a traditional graph to
 Zoltan

---
 partition/Multilevel/engpar_zoltan.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/partition/Multilevel/engpar_zoltan.cpp b/partition/Multilevel/engpar_zoltan.cpp
index dc1b0d2..4f46917 100644
--- a/partition/Multilevel/engpar_zoltan.cpp
+++ b/partition/Multilevel/engpar_zoltan.cpp
@@ -192,7 +192,15 @@ namespace engpar {
     *ierr = ZOLTAN_OK;
     agi::PNgraph* pg = g->publicize();
     agi::GraphVertex* v = pg->getVertex(*lid);
-    return g->degree(v,input->edge_type);
+    int count = 0;
+    agi::EdgeIterator* eitr = g->edges(v,input->edge_type);
+    agi::GraphEdge* e;
+    while ((e = g->iterate(eitr))) {
+      if (g->v(e) != v)
+        ++count;
+    }
+    g->destroy(eitr);
+    return count;
   }
 
   //ZOLTAN_EDGE_LIST_FN
@@ -208,6 +216,8 @@ namespace engpar {
     int index = 0;
     while ((e = g->iterate(eitr))) {
       agi::GraphVertex* v = g->v(e);
+      if (v == u)
+        continue;
       nbrs[index] = g->globalID(v);
       owners[index] = g->owner(v);
       wgts[index++] = g->weight(e);
-- 
2.43.0


From 19351aacf7e161642a5de81362332d13680a769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 43/55] fix: keep the distance traversal of directed graphs
 within its disjoint sets

---
 partition/Diffusive/src/engpar_queue.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index 91ac327..d1bf512 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -128,6 +128,9 @@ namespace engpar {
       return true;
     }
     int l2 = i->labels[dest];
+    //The edge was visited by an earlier traversal
+    if (l2==-1)
+      return false;
     while(l2!=i->parents[l2]) 
       l2=i->parents[l2];
     if (label!=l2) {
@@ -370,6 +373,8 @@ namespace engpar {
       bfsSort(in2->seeds,start_seed,in2->numSeeds-1,in2->visited);
       
       //Cleanup disjoint sets
+      for (agi::lid_t j=start_seed;j<in2->numSeeds;j++)
+        in2->labels[in2->seeds[j]] = -1;
       delete [] in2->parents;
       in2->parents = NULL;
       delete [] in2->set_size;
-- 
2.43.0


From d2224ec63a2a978fd6fa0c45afc2356fde0f6c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 44/55] fix: report a failure of ParMETIS instead of using an
 unset partition

---
 partition/Multilevel/engpar_parmetis.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/partition/Multilevel/engpar_parmetis.cpp b/partition/Multilevel/engpar_parmetis.cpp
index 4c813d4..c25daa8 100644
--- a/partition/Multilevel/engpar_parmetis.cpp
+++ b/partition/Multilevel/engpar_parmetis.cpp
@@ -5,6 +5,7 @@
 #include <stdexcept>
 #include <ngraph.h>
 #include <engpar_split_input.h>
+#include <engpar_support.h>
 #ifdef HAS_PARMETIS
 #include <parmetis.h>
 #endif
@@ -142,7 +143,7 @@ namespace engpar {
     MPI_Comm comm = PCU_Get_Comm();
 
     //Create Partition
-    ParMETIS_V3_PartKway(vtxdist,xadj,adjncy,vwgts,ewgts,
+    int ret = ParMETIS_V3_PartKway(vtxdist,xadj,adjncy,vwgts,ewgts,
                          &wgtflag,&numflag,&ncon,&nparts,
                          tpwgts,&ubvec,options,&edgecut,
                          new_partition,&comm);
@@ -152,6 +153,12 @@ namespace engpar {
     delete [] vwgts;
     delete [] ewgts;
     delete [] tpwgts;
+    if (ret != METIS_OK) {
+      delete [] new_partition;
+      if (!PCU_Comm_Self())
+        EnGPar_Error_Message("ParMETIS_V3_PartKway failed\n");
+      throw std::runtime_error("ParMETIS_V3_PartKway failed");
+    }
     //Make the migration plan
     agi::Migration* plan = new agi::Migration(g);
     i=0;
-- 
2.43.0


From 6bdaeae28da9037fd636996768fa2a42a079cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 45/55] fix: split an empty part locally into empty parts

---
 partition/Multilevel/engpar_parmetis.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/partition/Multilevel/engpar_parmetis.cpp b/partition/Multilevel/engpar_parmetis.cpp
index c25daa8..22199c6 100644
--- a/partition/Multilevel/engpar_parmetis.cpp
+++ b/partition/Multilevel/engpar_parmetis.cpp
@@ -21,6 +21,9 @@ namespace engpar {
     typedef std::unordered_map<agi::GraphVertex*,int> VertexSet;
     
     agi::Ngraph* g = input->g;
+    //ParMETIS accepts no empty part, there is nothing to move in a local one
+    if (isLocal && g->numLocalVtxs()==0)
+      return new agi::Migration(g);
     //Get an offset array of the vertices on each part
     idx_t* vtxdist = new idx_t[PCU_Comm_Peers()+1];
     for (int i = 0; i <= PCU_Comm_Self()+1; ++i) {
-- 
2.43.0


From 69b1a5f33ca0ded52d5bf9e1cf2df98da76f7396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 46/55] fix: define the declared C interface of local splits

---
 interfaces/cengpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/cengpar.cpp b/interfaces/cengpar.cpp
index cfac2ff..a8ed204 100644
--- a/interfaces/cengpar.cpp
+++ b/interfaces/cengpar.cpp
@@ -25,7 +25,7 @@ ngraph cengpar_createEmptyGraph() {
 
 
 engparInput cengpar_createLocalSplitInput(ngraph g, MPI_Fint smallComm, MPI_Fint largeComm,
-    bool isOrig, int splitFactor, double tol, agi::etype t, agi::part_t* ranks) {
+    bool isOrig, int splitFactor, double tol, agi::part_t* ranks, agi::etype t) {
   MPI_Comm s = MPI_Comm_f2c(smallComm);
   MPI_Comm l = MPI_Comm_f2c(largeComm);
   agi::Ngraph* ng = (agi::Ngraph*)g;
-- 
2.43.0


From acb6f87177738096d95629555055545ef647c659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 47/55] fix: declare the returned partition of the Fortran
 interface as output

---
 ftn/engpar.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ftn/engpar.f90 b/ftn/engpar.f90
index f4e7506..af5568d 100644
--- a/ftn/engpar.f90
+++ b/ftn/engpar.f90
@@ -292,8 +292,8 @@ module engpar
              bind(C, NAME='cengpar_getPartition')
     use :: iso_c_binding
     type(c_ptr), value :: graph
-    integer(AGI_GID_FT), intent(in), dimension(nverts) :: verts
-    integer(AGI_PART_FT), intent(in), dimension(nverts) :: parts
+    integer(AGI_GID_FT), intent(inout), dimension(nverts) :: verts
+    integer(AGI_PART_FT), intent(inout), dimension(nverts) :: parts
     integer(C_INT), intent(in), value :: nverts
   end subroutine
   end interface
-- 
2.43.0


From 4098becd1a2a9b28a75b0e5dbc179e905c5eac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 48/55] fix: label the vertices of an edge list file on the
 process that owns them

---
 interfaces/binGraph.cpp | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index bc80493..32ed4bc 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -290,18 +290,28 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
   for (lid_t i=0;i<num_local_verts;i++)
     local_weights[i] = 1;
   int64_t cur_label = 0;
+  int64_t ghost_label = num_local_verts;
+  std::vector<int64_t> nonlocal_vids;
   for (int64_t i = 0; i < num_local_edges[t]*2; i++) {
     int64_t out = edge_list[t][i];
-    if (ranks[out] != PCU_Comm_Self())
-      continue;
     if (vtx_mapping.count(out) == 0) {
-      vtx_mapping[out] = cur_label;
-      local_unmap[cur_label] = out;
-      edge_list[t][i] = cur_label++;
+      if (ranks[out] == PCU_Comm_Self()) {
+        vtx_mapping[out] = cur_label;
+        local_unmap[cur_label++] = out;
+      }
+      else {
+        vtx_mapping[out] = ghost_label++;
+        nonlocal_vids.push_back(out);
+      }
     }
-    else        
-      edge_list[t][i] = vtx_mapping[out];
+    edge_list[t][i] = vtx_mapping[out];
   }
+  //Vertices without edges on this process
+  for (int64_t i = 0; i < num_global_verts; ++i)
+    if (ranks[i] == PCU_Comm_Self() && vtx_mapping.count(i) == 0) {
+      vtx_mapping[i] = cur_label;
+      local_unmap[cur_label++] = i;
+    }
   lid_t* tmp_edges = new lid_t[num_local_edges[t]];
   lid_t* temp_counts = new lid_t[num_local_verts];
   degree_list[t] = new lid_t[num_local_verts+1];
@@ -323,19 +333,7 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
   
 
   if (createGhost) {
-    cur_label = num_local_verts;
-    std::vector<int64_t> nonlocal_vids;
-    for (int64_t i = 0; i < num_local_edges[t]; ++i) {
-      int64_t out = edge_list[t][i];
-      if (vtx_mapping.find(out) ==vtx_mapping.end()) {
-        vtx_mapping[out] = cur_label;
-        edge_list[t][i] = cur_label++;
-        nonlocal_vids.push_back(out);
-      }
-      else if (vtx_mapping[out] >= num_local_verts)
-        edge_list[t][i] = vtx_mapping[out];
-    }
-    num_ghost_verts = cur_label - num_local_verts;
+    num_ghost_verts = ghost_label - num_local_verts;
     if (num_ghost_verts>0) {
       ghost_unmap = new gid_t[num_ghost_verts];
       owners = new int32_t[num_ghost_verts];
-- 
2.43.0


From 48655758d05ea1ed345198c9d8dc0b43b26443ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 49/55] fix: log the loading of edge list files with names of
 any length

---
 interfaces/binGraph.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index 32ed4bc..b2e0846 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -16,9 +16,8 @@ namespace agi {
 
 Ngraph* createBinGraph(char* graph_file,char* part_file) {
   if (EnGPar_Is_Log_Open()) {
-    char message[256];
-    sprintf(message,"createBinGraph %s\n",graph_file);
-    EnGPar_Log_Function(message);
+    std::string message = std::string("createBinGraph ")+graph_file+"\n";
+    EnGPar_Log_Function(&message[0]);
     EnGPar_End_Function();
   }
 
-- 
2.43.0


From 8c1efeec401e8f236d89560e2b9bcd52f6c2981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 50/55] fix: render the ghost vertices that the edges of
 traditional graphs refer to

---
 agi/agiVTK.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index f0de133..25a2b85 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -82,6 +82,11 @@ namespace agi {
       }
       g->destroy(eitr);
     }
+    else {
+      //Write the position of each ghost vertex
+      for (lid_t i=0;i<g->numGhostVtxs();i++)
+        fprintf(f," %f %f %f\n",ghost_cs[i][0],ghost_cs[i][1],ghost_cs[i][2]);
+    }
     fprintf(f,"\n</DataArray>\n</Points>\n");
     delete [] ghost_cs;
   }
@@ -169,6 +174,13 @@ namespace agi {
       }
       g->destroy(eitr);
     }
+    else {
+      agi::GraphVertex* v;
+      agi::GhostIterator* gitr = g->beginGhosts();
+      while ((v = g->iterate(gitr))) {
+        fprintf(f,"%d\n",g->owner(v));
+      }
+    }
     fprintf(f,"</DataArray>\n");
 
     if (g->isHyper()) {
@@ -206,6 +218,10 @@ namespace agi {
         }
         g->destroy(eitr);
       }
+      else {
+        for (lid_t i=0;i<g->numGhostVtxs();i++)
+          fprintf(f,"-1\n");
+      }
       fprintf(f,"</DataArray>\n");
     }
     fprintf(f,"</PointData>\n");
@@ -276,6 +292,8 @@ namespace agi {
     lid_t numPoints = g->numLocalVtxs();
     if (g->isHyper())
       numPoints+= g->numLocalEdges();
+    else
+      numPoints+= g->numGhostVtxs();
     fprintf(f,"<Piece NumberOfPoints=\"%d\" NumberOfCells=\"%ld\">\n",
             numPoints,numCells);
     writePoints(g,f);
-- 
2.43.0


From c189c6cbb7946c505a60ddf79baebe21fb8dfb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 51/55] fix: render graphs to files with names of any length

---
 agi/agiVTK.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index 25a2b85..c6e0d22 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -1,6 +1,7 @@
 #include "ngraph.h"
 #include <PCU.h>
 #include "agi.h"
+#include <string>
 namespace agi {
 
   void writePoints(Ngraph* g,FILE* f) {
@@ -265,10 +266,8 @@ namespace agi {
   }
 
   void writePSources(FILE* pf, const char* prefix) {
-    char filename[256];
     for (int i=0;i<PCU_Comm_Peers();i++) {
-      sprintf(filename,"%s%d.vtu",prefix,i);
-      fprintf(pf,"<Piece Source=\"%s\"/>\n",filename);
+      fprintf(pf,"<Piece Source=\"%s%d.vtu\"/>\n",prefix,i);
     }
   }
   
@@ -283,9 +282,8 @@ namespace agi {
 
   }
   void writeVTK(Ngraph* g, const char* prefix,GraphTag* tag,etype t) {
-    char filename[256];
-    sprintf(filename,"%s%d.vtu",prefix,PCU_Comm_Self());
-    FILE* f = fopen(filename,"w");
+    std::string filename = std::string(prefix)+std::to_string(PCU_Comm_Self())+".vtu";
+    FILE* f = fopen(filename.c_str(),"w");
     fprintf(f,"<VTKFile type=\"UnstructuredGrid\">\n");
     fprintf(f,"<UnstructuredGrid>\n");
     gid_t numCells = getNumCells(g);
@@ -305,9 +303,8 @@ namespace agi {
     fclose(f);
 
     if (!PCU_Comm_Self()) {
-      char pfilename[256];
-      sprintf(pfilename,"%s.pvtu",prefix);
-      FILE* pf = fopen(pfilename,"w");
+      std::string pfilename = std::string(prefix)+".pvtu";
+      FILE* pf = fopen(pfilename.c_str(),"w");
       writePVTU(pf,prefix,g,tag,t);
       fclose(pf);
     }
-- 
2.43.0


From 1d3de7c25e6a1fda168e2d1f25cb837fa23f482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 52/55] fix: logical reductions treat any nonzero contribution
 as true

---
 pcu/pcu.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcu/pcu.c b/pcu/pcu.c
index e600b6f..d3f83ea 100644
--- a/pcu/pcu.c
+++ b/pcu/pcu.c
@@ -474,14 +474,14 @@ int PCU_Max_Int(int x)
   */
 int PCU_Or(int c)
 {
-  return PCU_Max_Int(c);
+  return PCU_Max_Int(c != 0);
 }
 
 /** \brief Performs a parallel logical AND reduction
   */
 int PCU_And(int c)
 {
-  return PCU_Min_Int(c);
+  return PCU_Min_Int(c != 0);
 }
 
 /** \brief Returns the unique rank of the calling process.
-- 
2.43.0


From 7c4013347745775a6734d56a6ce27139d19c530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 53/55] fix: match migrated coordinates to their vertices by id

---
 agi/agiMigrate.cpp | 20 +++++++++++++++-----
 agi/ngraph.h       |  3 ++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index a54c78d..37cc3a0 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -193,14 +193,21 @@ namespace agi {
   }
   void Ngraph::sendCoord(GraphVertex* vtx, part_t toSend) {
     const coord_t& c = coord(vtx);
+    gid_t gid = globalID(vtx);
+    PCU_COMM_PACK(toSend,gid);
     PCU_COMM_PACK(toSend,c[0]);
     PCU_COMM_PACK(toSend,c[1]);
     PCU_COMM_PACK(toSend,c[2]);
   }
-  void Ngraph::recvCoord(coord_t* cs,lid_t& size) {
-    PCU_COMM_UNPACK(cs[size][0]);
-    PCU_COMM_UNPACK(cs[size][1]);
-    PCU_COMM_UNPACK(cs[size][2]);
+  void Ngraph::recvCoord(coord_t* cs,lid_t& size,
+                         const std::unordered_map<gid_t,lid_t>& place) {
+    //The senders may come in another order than they did with the vertices
+    gid_t gid;
+    PCU_COMM_UNPACK(gid);
+    coord_t& c = cs[place.at(gid)];
+    PCU_COMM_UNPACK(c[0]);
+    PCU_COMM_UNPACK(c[1]);
+    PCU_COMM_UNPACK(c[2]);
     size++;
   }
 
@@ -355,6 +362,9 @@ namespace agi {
       lid_t size=0;
       cs = new coord_t[ownedVerts.size()];
       addCoords(this,affectedVerts,cs,size);
+      std::unordered_map<gid_t,lid_t> place;
+      for (size_t i=0;i<ownedVerts.size();i++)
+        place[ownedVerts[i]] = i;
       Migration::iterator itr;
       PCU_Comm_Begin();
       for (itr = plan->begin();itr!=plan->end();itr++) {
@@ -362,7 +372,7 @@ namespace agi {
       }
       PCU_Comm_Send();
       while (PCU_Comm_Receive()) {
-        recvCoord(cs,size);
+        recvCoord(cs,size,place);
       }
       assert(size==(lid_t)ownedVerts.size());
     }
diff --git a/agi/ngraph.h b/agi/ngraph.h
index c365eeb..e4be317 100644
--- a/agi/ngraph.h
+++ b/agi/ngraph.h
@@ -572,7 +572,8 @@ public:
   void recvVertex(std::vector<gid_t>&,std::vector<wgt_t>&,
                   std::vector<part_t>&);
   void sendCoord(GraphVertex*, part_t);
-  void recvCoord(coord_t*,lid_t& size);
+  void recvCoord(coord_t*,lid_t& size,
+                 const std::unordered_map<gid_t,lid_t>& place);
   void sendEdges(Migration*,std::unordered_set<GraphEdge*>&);
   void recvEdges(std::unordered_set<gid_t>&,std::vector<gid_t>&,
                  std::vector<wgt_t>&,std::vector<lid_t>&,
-- 
2.43.0


From 5b579ced393f5b4f32cece6b1ad2babf7c672e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 54/55] fix: reading or writing nothing in a compressed file is
 not an error

---
 pcu/pcu_io.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pcu/pcu_io.c b/pcu/pcu_io.c
index 11dd718..9aba482 100644
--- a/pcu/pcu_io.c
+++ b/pcu/pcu_io.c
@@ -70,6 +70,8 @@ static void compressed_read(pcu_file* pf, void* data, size_t size)
   int bzerror;
   int len;
   int rv;
+  if (!size)
+    return; /* bzip2 rejects NULL even when there is nothing to read */
   PCU_ALWAYS_ASSERT(size < INT_MAX);
   len = size;
   rv = BZ2_bzRead(&bzerror, pf->bzf, data, len);
@@ -83,6 +85,8 @@ static void compressed_write(pcu_file* pf, void const* data, size_t size)
   int bzerror;
   int len;
   void* bzip2_is_not_const_correct;
+  if (!size)
+    return;
   PCU_ALWAYS_ASSERT_VERBOSE(size < INT_MAX, 
     "partition the mesh further or disable bz2 mesh compression\n");
   len = size;
-- 
2.43.0


From 447cc0feb032d390033a58cc9fb7d3c5fdc29a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:08 +0000
Subject: [PATCH 55/55] fix: finalizing only frees the PCU that the matching
 initialize set up

---
 support/engpar_support.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/engpar_support.cpp b/support/engpar_support.cpp
index d309b21..bcd77e4 100644
--- a/support/engpar_support.cpp
+++ b/support/engpar_support.cpp
@@ -21,6 +21,7 @@ void EnGPar_Finalize() {
   EnGPar_Close_Log();
   if (handlingPCU &&PCU_Comm_Initialized())
     PCU_Comm_Free();
+  handlingPCU=false;
 }
 
 void EnGPar_Switch_Comm(MPI_Comm comm) {
-- 
2.43.0


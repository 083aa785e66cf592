From 538b6feff86b8f84e96e624d11ef5a5140009c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 01/69] fix: SGA protected division must not modify its divisor
 in place

The divisor of a leaf is the array shared with the problem context (and,
for the coordinate grids, a read-only view), so adding eps in place
changed the data seen by every later term.
---
 kd/model/sga/sgapde/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/config.py b/kd/model/sga/sgapde/config.py
index 66200ac..3915ef5 100644
--- a/kd/model/sga/sgapde/config.py
+++ b/kd/model/sga/sgapde/config.py
@@ -264,8 +264,9 @@ class SolverConfig:
     @staticmethod
     def divide(up, down, eta=1e-10):
         """Safe division function."""
+        # 不可原地修改: down 可能就是 context 中共享的变量数组
         while np.any(down == 0):
-            down += eta
+            down = down + eta
         return up / down
         
     def get_device(self):
-- 
2.43.0


From 0e144d7341afb699e9b6c804ded19e50796d1da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 02/69] fix: SGA mutation must terminate when only one
 derivative axis exists

With a single RHS axis other than 'x', mutating the axis of a derivative
rejected every candidate forever.
---
 kd/model/sga/sgapde/tree.py | 475 ++++++++++++++++++------------------
 1 file changed, 239 insertions(+), 236 deletions(-)

diff --git a/kd/model/sga/sgapde/tree.py b/kd/model/sga/sgapde/tree.py
index b602314..627a4b7 100644
--- a/kd/model/sga/sgapde/tree.py
+++ b/kd/model/sga/sgapde/tree.py
@@ -1,236 +1,239 @@
-import copy
-import numpy as np
-
-from kd.utils.debug_utils import profile
-
-class Node:
-    """
-        1. depth: 节点深度
-        2. idx: 当前深度的第几个节点
-        3. parent_idx: 父节点是上一层的第几个节点
-        4. name: 节点详情
-        5. child_num: 节点拥有几个孩子节点(单运算还是双运算)
-        6. child_st: 下一层从第几个节点开始是当前的孩子节点
-        7. var: 节点variable/operation
-        8. cache: 保留运算至今的数据
-        9. status: 初始化为child_num，用于记录遍历状态
-        10. full: 完整信息，以OP或VAR形式表示
-    """
-    @profile
-    def __init__(self, depth, idx, parent_idx, name, full, child_num, child_st, var):
-        self.depth = depth
-        self.idx = idx
-        self.parent_idx = parent_idx
-
-        self.name = name
-        self.child_num = child_num
-        self.child_st = child_st
-        self.status = self.child_num
-        self.var = var
-        self.full = full
-        self.cache = copy.deepcopy(var) # self.cache = var
-
-    def __str__(self): # 提供节点详情
-        return self.name
-
-    def reset_status(self): # 初始化status
-        self.status = self.child_num
-
-
-class Tree: #对应于pde中的一个term
-    def __init__(self, context, max_depth, p_var):
-        self.max_depth = max_depth
-        self.tree = [[] for i in range(max_depth)]
-        self.preorder, self.inorder = None, None
-
-        root = context.ROOT[np.random.randint(0, len(context.ROOT))] # 随机产生初始root（一种OPS）# e.g. ['sin', 1, np.sin], ['*', 2, np.multiply] 
-        node = Node(depth=0, idx=0, parent_idx=None, name=root[0], var=root[2], full=root,
-                    child_num=int(root[1]), child_st=0) # 设置初始节点Node
-        self.tree[0].append(node) # 初始节点
-
-        depth = 1
-        while depth < max_depth:
-            next_cnt = 0 #child_st=next_cnt， child_st: 下一层从第几个节点开始是当前的孩子节点
-            # 对应每一个父节点都要继续生成他们的子节点
-            for parent_idx in range(len(self.tree[depth - 1])): #一个tree中某个depth处的node的子节点可以是多个，因此有可能在某个深度处存在多个node
-                parent = self.tree[depth - 1][parent_idx] # 提取出对应深度处的对应操作符（某个node）
-                if parent.child_num == 0: # 如果当前node没有子节点，则跳过当前循环的剩余语句，然后继续进行下一轮循环
-                    continue
-                for j in range(parent.child_num):
-                    # rule 1: parent var为d 且j为1时，必须确保右子节点为x
-                    if parent.name in {'d', 'd^2'} and j == 1: # j == 0 为d的左侧节点，j == 1为d的右侧节点
-                        node = context.den[np.random.randint(0, len(context.den))] # 随机产生一个微分运算的denominator，一般是xyt
-                        node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
-                                    var=node[2], full=node, child_num=int(node[1]), child_st=None)
-                        self.tree[depth].append(node)
-                    # rule 2: 最底一层必须是var，不能是op
-                    elif depth == max_depth - 1:
-                        node = context.VARS[np.random.randint(0, len(context.VARS))]
-                        node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
-                                    var=node[2], full=node, child_num=int(node[1]), child_st=None)
-                        self.tree[depth].append(node)
-                    else:
-                    # rule 3: 不是最底一层，p_var概率产生var，如果产生var，则child_st为None。当产生的是ops的时候，产生对应node时对应的child_st会通过计算获得。以便对应于下一层中该ops对应的子节点。
-                        if np.random.random() <= p_var:
-                            node = context.VARS[np.random.randint(0, len(context.VARS))]
-                            node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
-                                        var=node[2], full=node, child_num=int(node[1]), child_st=None)
-                            self.tree[depth].append(node)
-                        else:
-                            node = context.OPS[np.random.randint(0, len(context.OPS))]
-                            node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
-                                        var=node[2], full=node, child_num=int(node[1]), child_st=next_cnt)
-                            next_cnt += node.child_num
-                            self.tree[depth].append(node)
-            depth += 1
-
-        ret = []
-        dfs(ret, self.tree, depth=0, idx=0)
-        self.preorder = ' '.join([x for x in ret])
-        model_tree = copy.deepcopy(self.tree)
-        self.inorder = tree2str_merge(model_tree)
-
-        # print(self.preorder)
-        # print(self.inorder)
-        # print('---------------')
-
-    def mutate(self, context, p_mute): #直接替换原有tree中的某个节点，用同类型节点替换，因此后续位置不需要重新生成（类似替换了一个基因，而不是把后续基因序列重新产生，具有物理含义，也易于实现）
-        global see_tree
-        see_tree = copy.deepcopy(self.tree)
-        depth = 1
-        while depth < self.max_depth:
-            next_cnt = 0
-            idx_this_depth = 0  # 这个深度第几个节点
-            for parent_idx in range(len(self.tree[depth - 1])):
-                parent = self.tree[depth - 1][parent_idx]
-                if parent.child_num == 0:
-                    continue
-                for j in range(parent.child_num):  # parent 的第j个子节点
-                    not_mute = np.random.choice([True, False], p=([1 - p_mute, p_mute]))
-                    # rule 1: 不突变则跳过
-                    if not_mute:
-                        next_cnt += self.tree[depth][parent.child_st + j].child_num
-                        continue
-                    # 当前节点的类型
-                    current = self.tree[depth][parent.child_st + j]
-                    temp = self.tree[depth][parent.child_st + j].name
-                    num_child = self.tree[depth][parent.child_st + j].child_num  # 当前变异节点的子节点数
-                    # print('mutate!')
-                    if num_child == 0: # 叶子节点
-                        node = context.VARS[np.random.randint(0, len(context.VARS))] # rule 2: 叶节点必须是var，不能是op
-                        while node[0] == temp or (parent.name in {'d', 'd^2'} and node[0] not in context.den[:, 0]):# rule 3: 如果编译前后结果重复，或者d的节点不在den中（即出现不能求导的对象），则重新抽取
-                            if context.simple_mode and parent.name in {'d', 'd^2'} and node[0] == 'x': # simple_mode中，遇到对于x的导数，直接停止变异
-                                break
-                            node = context.VARS[np.random.randint(0, len(context.VARS))] # 重新抽取一个vars
-                        new_node = Node(depth=depth, idx=idx_this_depth, parent_idx=parent_idx, name=node[0],
-                                    var=node[2], full=node, child_num=int(node[1]), child_st=None)
-                        self.tree[depth][parent.child_st + j] = new_node #替换成变异的节点
-                    else: # 非叶子节点
-                        if num_child == 1:
-                            node = context.OP1[np.random.randint(0, len(context.OP1))]
-                            while node[0] == temp:  # 避免重复
-                                node = context.OP1[np.random.randint(0, len(context.OP1))]
-                        elif num_child == 2:
-                            node = context.OP2[np.random.randint(0, len(context.OP2))]
-                            right = self.tree[depth + 1][current.child_st + 1].name
-                            while node[0] == temp or (node[0] in {'d', 'd^2'} and right not in context.den[:, 0]):# rule 4: 避免重复，避免生成d以打乱树结构（新d的右子节点不是x）
-                                node = context.OP2[np.random.randint(0, len(context.OP2))]
-                        else:
-                            raise NotImplementedError("Error occurs!")
-
-                        new_node = Node(depth=depth, idx=idx_this_depth, parent_idx=parent_idx, name=node[0],
-                                    var=node[2], full=node, child_num=int(node[1]), child_st=next_cnt)
-                        next_cnt += new_node.child_num
-                        self.tree[depth][parent.child_st + j] = new_node
-                    idx_this_depth += 1
-            depth += 1
-
-        ret = []
-        dfs(ret, self.tree, depth=0, idx=0)
-        self.preorder = ' '.join([x for x in ret])
-        model_tree = copy.deepcopy(self.tree)
-        self.inorder = tree2str_merge(model_tree)
-
-        # print(self.preorder)
-        # print(self.inorder)
-
-
-def dfs(ret, a_tree, depth, idx): #辅助前序遍历，产生一个描述这个tree的名称序列（ret）
-    # print(depth, idx)  # 深度优先遍历的顺序
-    node = a_tree[depth][idx]
-    ret.append(node.name) # 记录当前操作
-    for ix in range(node.child_num):
-        if node.child_st is None:
-            continue
-        dfs(ret, a_tree, depth+1, node.child_st + ix) #进入下一层中下一个节点对应的子节点
-
-
-def tree2str_merge(a_tree):
-    for i in range(len(a_tree) - 1, 0, -1):
-        for node in a_tree[i]:
-            if node.status == 0:
-                if a_tree[node.depth-1][node.parent_idx].status == 1:
-                    if a_tree[node.depth-1][node.parent_idx].child_num == 2:
-                        a_tree[node.depth-1][node.parent_idx].name = a_tree[node.depth-1][node.parent_idx].name + ' ' + node.name + ')'
-                    else:
-                        a_tree[node.depth-1][node.parent_idx].name = '( ' + a_tree[node.depth-1][node.parent_idx].name + ' ' + node.name + ')'
-                elif a_tree[node.depth-1][node.parent_idx].status > 1:
-                    a_tree[node.depth-1][node.parent_idx].name = '(' + node.name + ' ' + a_tree[node.depth-1][node.parent_idx].name
-                a_tree[node.depth-1][node.parent_idx].status -= 1
-    return a_tree[0][0].name
-
-
-# class Point:
-#     def __init__(self, idx, name, child_num, child_idx=[]):
-#         """
-#             1. idx: 当前序列的第几个节点
-#             2. parent_idx: 父节点是第几个节点
-#             3. name: 节点名称
-#             4. child_num: 节点拥有几个孩子节点
-#             5. child_idx: 孩子节点是序列的第几个
-#         """
-#         self.idx = idx
-#         self.name = name
-#         self.child_num = child_num
-#         self.child_idx = child_idx
-
-#     def __str__(self):
-#         return self.name
-
-#     def add_child(self, ix):
-#         self.child_idx.append(ix)
-
-
-# def is_an_equation(seq):  # e.g. (+ u - u u)
-#     def split(seq, idx):
-#         # last element is an op
-#         if idx >= len(seq): return np.inf
-
-#         # idx is the current node
-#         op = ALL[:, 0]
-#         root = ALL[np.where(op == seq[idx])][0]
-#         node = Point(idx=idx, name=root[0], child_num=int(root[1]))
-
-#         if node.child_num != 0:
-#             node.child_idx.append(idx + 1)  # might be wrong for the last node, not fatal though
-#             new_idx = split(seq, idx + 1)  # first child
-#             if node.child_num != 1:  # other children
-#                 node.child_idx.append(new_idx)
-#                 new_idx = split(seq, new_idx)
-#             return new_idx
-
-#         return idx + 1
-
-#     idx = 0
-#     end_idx = split(seq, idx)
-#     if end_idx != len(seq):
-#         return False
-#     return True
-
-
-if __name__ == '__main__':
-    tree = Tree(max_depth=4, p_var=0.5)
-    print(tree.inorder)
-    tree.mutate(p_mute=1)
-    print(tree.inorder)
-
+import copy
+import numpy as np
+
+from kd.utils.debug_utils import profile
+
+class Node:
+    """
+        1. depth: 节点深度
+        2. idx: 当前深度的第几个节点
+        3. parent_idx: 父节点是上一层的第几个节点
+        4. name: 节点详情
+        5. child_num: 节点拥有几个孩子节点(单运算还是双运算)
+        6. child_st: 下一层从第几个节点开始是当前的孩子节点
+        7. var: 节点variable/operation
+        8. cache: 保留运算至今的数据
+        9. status: 初始化为child_num，用于记录遍历状态
+        10. full: 完整信息，以OP或VAR形式表示
+    """
+    @profile
+    def __init__(self, depth, idx, parent_idx, name, full, child_num, child_st, var):
+        self.depth = depth
+        self.idx = idx
+        self.parent_idx = parent_idx
+
+        self.name = name
+        self.child_num = child_num
+        self.child_st = child_st
+        self.status = self.child_num
+        self.var = var
+        self.full = full
+        self.cache = copy.deepcopy(var) # self.cache = var
+
+    def __str__(self): # 提供节点详情
+        return self.name
+
+    def reset_status(self): # 初始化status
+        self.status = self.child_num
+
+
+class Tree: #对应于pde中的一个term
+    def __init__(self, context, max_depth, p_var):
+        self.max_depth = max_depth
+        self.tree = [[] for i in range(max_depth)]
+        self.preorder, self.inorder = None, None
+
+        root = context.ROOT[np.random.randint(0, len(context.ROOT))] # 随机产生初始root（一种OPS）# e.g. ['sin', 1, np.sin], ['*', 2, np.multiply] 
+        node = Node(depth=0, idx=0, parent_idx=None, name=root[0], var=root[2], full=root,
+                    child_num=int(root[1]), child_st=0) # 设置初始节点Node
+        self.tree[0].append(node) # 初始节点
+
+        depth = 1
+        while depth < max_depth:
+            next_cnt = 0 #child_st=next_cnt， child_st: 下一层从第几个节点开始是当前的孩子节点
+            # 对应每一个父节点都要继续生成他们的子节点
+            for parent_idx in range(len(self.tree[depth - 1])): #一个tree中某个depth处的node的子节点可以是多个，因此有可能在某个深度处存在多个node
+                parent = self.tree[depth - 1][parent_idx] # 提取出对应深度处的对应操作符（某个node）
+                if parent.child_num == 0: # 如果当前node没有子节点，则跳过当前循环的剩余语句，然后继续进行下一轮循环
+                    continue
+                for j in range(parent.child_num):
+                    # rule 1: parent var为d 且j为1时，必须确保右子节点为x
+                    if parent.name in {'d', 'd^2'} and j == 1: # j == 0 为d的左侧节点，j == 1为d的右侧节点
+                        node = context.den[np.random.randint(0, len(context.den))] # 随机产生一个微分运算的denominator，一般是xyt
+                        node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
+                                    var=node[2], full=node, child_num=int(node[1]), child_st=None)
+                        self.tree[depth].append(node)
+                    # rule 2: 最底一层必须是var，不能是op
+                    elif depth == max_depth - 1:
+                        node = context.VARS[np.random.randint(0, len(context.VARS))]
+                        node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
+                                    var=node[2], full=node, child_num=int(node[1]), child_st=None)
+                        self.tree[depth].append(node)
+                    else:
+                    # rule 3: 不是最底一层，p_var概率产生var，如果产生var，则child_st为None。当产生的是ops的时候，产生对应node时对应的child_st会通过计算获得。以便对应于下一层中该ops对应的子节点。
+                        if np.random.random() <= p_var:
+                            node = context.VARS[np.random.randint(0, len(context.VARS))]
+                            node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
+                                        var=node[2], full=node, child_num=int(node[1]), child_st=None)
+                            self.tree[depth].append(node)
+                        else:
+                            node = context.OPS[np.random.randint(0, len(context.OPS))]
+                            node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
+                                        var=node[2], full=node, child_num=int(node[1]), child_st=next_cnt)
+                            next_cnt += node.child_num
+                            self.tree[depth].append(node)
+            depth += 1
+
+        ret = []
+        dfs(ret, self.tree, depth=0, idx=0)
+        self.preorder = ' '.join([x for x in ret])
+        model_tree = copy.deepcopy(self.tree)
+        self.inorder = tree2str_merge(model_tree)
+
+        # print(self.preorder)
+        # print(self.inorder)
+        # print('---------------')
+
+    def mutate(self, context, p_mute): #直接替换原有tree中的某个节点，用同类型节点替换，因此后续位置不需要重新生成（类似替换了一个基因，而不是把后续基因序列重新产生，具有物理含义，也易于实现）
+        global see_tree
+        see_tree = copy.deepcopy(self.tree)
+        depth = 1
+        while depth < self.max_depth:
+            next_cnt = 0
+            idx_this_depth = 0  # 这个深度第几个节点
+            for parent_idx in range(len(self.tree[depth - 1])):
+                parent = self.tree[depth - 1][parent_idx]
+                if parent.child_num == 0:
+                    continue
+                for j in range(parent.child_num):  # parent 的第j个子节点
+                    not_mute = np.random.choice([True, False], p=([1 - p_mute, p_mute]))
+                    # rule 1: 不突变则跳过
+                    if not_mute:
+                        next_cnt += self.tree[depth][parent.child_st + j].child_num
+                        continue
+                    # 当前节点的类型
+                    current = self.tree[depth][parent.child_st + j]
+                    temp = self.tree[depth][parent.child_st + j].name
+                    num_child = self.tree[depth][parent.child_st + j].child_num  # 当前变异节点的子节点数
+                    # print('mutate!')
+                    if num_child == 0: # 叶子节点
+                        node = context.VARS[np.random.randint(0, len(context.VARS))] # rule 2: 叶节点必须是var，不能是op
+                        while node[0] == temp or (parent.name in {'d', 'd^2'} and node[0] not in context.den[:, 0]):# rule 3: 如果编译前后结果重复，或者d的节点不在den中（即出现不能求导的对象），则重新抽取
+                            if context.simple_mode and parent.name in {'d', 'd^2'} and node[0] == 'x': # simple_mode中，遇到对于x的导数，直接停止变异
+                                break
+                            if parent.name in {'d', 'd^2'} and np.all(context.den[:, 0] == temp): # 唯一可用的求导轴就是当前节点，没有可替换的对象，保持不变
+                                node = current.full
+                                break
+                            node = context.VARS[np.random.randint(0, len(context.VARS))] # 重新抽取一个vars
+                        new_node = Node(depth=depth, idx=idx_this_depth, parent_idx=parent_idx, name=node[0],
+                                    var=node[2], full=node, child_num=int(node[1]), child_st=None)
+                        self.tree[depth][parent.child_st + j] = new_node #替换成变异的节点
+                    else: # 非叶子节点
+                        if num_child == 1:
+                            node = context.OP1[np.random.randint(0, len(context.OP1))]
+                            while node[0] == temp:  # 避免重复
+                                node = context.OP1[np.random.randint(0, len(context.OP1))]
+                        elif num_child == 2:
+                            node = context.OP2[np.random.randint(0, len(context.OP2))]
+                            right = self.tree[depth + 1][current.child_st + 1].name
+                            while node[0] == temp or (node[0] in {'d', 'd^2'} and right not in context.den[:, 0]):# rule 4: 避免重复，避免生成d以打乱树结构（新d的右子节点不是x）
+                                node = context.OP2[np.random.randint(0, len(context.OP2))]
+                        else:
+                            raise NotImplementedError("Error occurs!")
+
+                        new_node = Node(depth=depth, idx=idx_this_depth, parent_idx=parent_idx, name=node[0],
+                                    var=node[2], full=node, child_num=int(node[1]), child_st=next_cnt)
+                        next_cnt += new_node.child_num
+                        self.tree[depth][parent.child_st + j] = new_node
+                    idx_this_depth += 1
+            depth += 1
+
+        ret = []
+        dfs(ret, self.tree, depth=0, idx=0)
+        self.preorder = ' '.join([x for x in ret])
+        model_tree = copy.deepcopy(self.tree)
+        self.inorder = tree2str_merge(model_tree)
+
+        # print(self.preorder)
+        # print(self.inorder)
+
+
+def dfs(ret, a_tree, depth, idx): #辅助前序遍历，产生一个描述这个tree的名称序列（ret）
+    # print(depth, idx)  # 深度优先遍历的顺序
+    node = a_tree[depth][idx]
+    ret.append(node.name) # 记录当前操作
+    for ix in range(node.child_num):
+        if node.child_st is None:
+            continue
+        dfs(ret, a_tree, depth+1, node.child_st + ix) #进入下一层中下一个节点对应的子节点
+
+
+def tree2str_merge(a_tree):
+    for i in range(len(a_tree) - 1, 0, -1):
+        for node in a_tree[i]:
+            if node.status == 0:
+                if a_tree[node.depth-1][node.parent_idx].status == 1:
+                    if a_tree[node.depth-1][node.parent_idx].child_num == 2:
+                        a_tree[node.depth-1][node.parent_idx].name = a_tree[node.depth-1][node.parent_idx].name + ' ' + node.name + ')'
+                    else:
+                        a_tree[node.depth-1][node.parent_idx].name = '( ' + a_tree[node.depth-1][node.parent_idx].name + ' ' + node.name + ')'
+                elif a_tree[node.depth-1][node.parent_idx].status > 1:
+                    a_tree[node.depth-1][node.parent_idx].name = '(' + node.name + ' ' + a_tree[node.depth-1][node.parent_idx].name
+                a_tree[node.depth-1][node.parent_idx].status -= 1
+    return a_tree[0][0].name
+
+
+# class Point:
+#     def __init__(self, idx, name, child_num, child_idx=[]):
+#         """
+#             1. idx: 当前序列的第几个节点
+#             2. parent_idx: 父节点是第几个节点
+#             3. name: 节点名称
+#             4. child_num: 节点拥有几个孩子节点
+#             5. child_idx: 孩子节点是序列的第几个
+#         """
+#         self.idx = idx
+#         self.name = name
+#         self.child_num = child_num
+#         self.child_idx = child_idx
+
+#     def __str__(self):
+#         return self.name
+
+#     def add_child(self, ix):
+#         self.child_idx.append(ix)
+
+
+# def is_an_equation(seq):  # e.g. (+ u - u u)
+#     def split(seq, idx):
+#         # last element is an op
+#         if idx >= len(seq): return np.inf
+
+#         # idx is the current node
+#         op = ALL[:, 0]
+#         root = ALL[np.where(op == seq[idx])][0]
+#         node = Point(idx=idx, name=root[0], child_num=int(root[1]))
+
+#         if node.child_num != 0:
+#             node.child_idx.append(idx + 1)  # might be wrong for the last node, not fatal though
+#             new_idx = split(seq, idx + 1)  # first child
+#             if node.child_num != 1:  # other children
+#                 node.child_idx.append(new_idx)
+#                 new_idx = split(seq, new_idx)
+#             return new_idx
+
+#         return idx + 1
+
+#     idx = 0
+#     end_idx = split(seq, idx)
+#     if end_idx != len(seq):
+#         return False
+#     return True
+
+
+if __name__ == '__main__':
+    tree = Tree(max_depth=4, p_var=0.5)
+    print(tree.inorder)
+    tree.mutate(p_mute=1)
+    print(tree.inorder)
+
-- 
2.43.0


From b3e5e9ec45e03fd4291c56004d2a49070322e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 03/69] fix: KD_SGA.fit_dataset accepts explicit
 target_field/lhs_axis with N-D datasets

---
 kd/model/kd_sga.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/kd/model/kd_sga.py b/kd/model/kd_sga.py
index a4460d0..cae422c 100644
--- a/kd/model/kd_sga.py
+++ b/kd/model/kd_sga.py
@@ -148,16 +148,10 @@ class KD_SGA(BaseEstimator):
         )
 
         # 推断优先级：用户显式设置 > adapter 推断 > 默认值
-        final_target_field = (
-            self.target_field
-            or solver_kwargs.pop("target_field", None)
-            or "u"
-        )
-        final_lhs_axis = (
-            self.lhs_axis
-            or solver_kwargs.pop("lhs_axis", None)
-            or "t"
-        )
+        inferred_target_field = solver_kwargs.pop("target_field", None)
+        inferred_lhs_axis = solver_kwargs.pop("lhs_axis", None)
+        final_target_field = self.target_field or inferred_target_field or "u"
+        final_lhs_axis = self.lhs_axis or inferred_lhs_axis or "t"
 
         config = SolverConfig(
             problem_name=problem_label,
-- 
2.43.0


From 89863298c49c9eafd0958672f19e5a0bba0f9229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 04/69] fix: SGA adapter passes parameter fields of x/t
 datasets on to the solver

---
 kd/model/sga/adapter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/adapter.py b/kd/model/sga/adapter.py
index e57d5c9..95e1f92 100644
--- a/kd/model/sga/adapter.py
+++ b/kd/model/sga/adapter.py
@@ -57,9 +57,13 @@ class SGADataAdapter:
                 f"({len(x)}, {len(t)}) but got {u.shape}"
             )
 
-        return {
+        kwargs = {
             "u_data": u,
             "x_data": x,
             "t_data": t,
             "problem_name": getattr(self.dataset, "equation_name", "custom_dataset") or "custom_dataset",
         }
+        param_fields = getattr(self.dataset, "param_fields", None)
+        if param_fields:
+            kwargs["param_fields"] = {k: np.asarray(v) for k, v in param_fields.items()}
+        return kwargs
-- 
2.43.0


From 0ef9829bf9b1fde7173b48362238bee8f02e7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 05/69] fix: SGA parameter fields are validated and cropped
 together with the grid

---
 kd/model/sga/sgapde/context.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 716dd65..77dfd79 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -166,6 +166,30 @@ class ProblemContext:
         if self.config.delete_edges:
             self._apply_edge_deletion()
 
+        self._validate_param_fields()
+
+    def _validate_param_fields(self):
+        """Parameter fields must have distinct names and live on the prepared grid."""
+        param_fields = getattr(self.config, "param_fields", None)
+        if not param_fields:
+            return
+        taken = {"0"} | set(self.fields) | set(self.coords_1d)
+        for field_name in self.fields:
+            for axis in self.axis_order:
+                taken.add(build_derivative_key(field_name, axis, order=1))
+        for name, value in param_fields.items():
+            validate_name(name)
+            if name in taken:
+                raise ValueError(
+                    f"Parameter field name '{name}' conflicts with a field, "
+                    "coordinate or derivative name."
+                )
+            if np.shape(value) != self.u.shape:
+                raise ValueError(
+                    f"Parameter field '{name}' has shape {np.shape(value)}, "
+                    f"expected {self.u.shape}."
+                )
+
     def _has_registry_payload(self):
         return self.config.fields_data is not None or self.config.coords_1d is not None
 
@@ -416,6 +440,14 @@ class ProblemContext:
         slicer = tuple(slicer)
 
         new_fields = {name: field[slicer] for name, field in self.fields.items()}
+        param_fields = getattr(self.config, "param_fields", None)
+        if param_fields:
+            # Parameters live on the same grid as the fields.
+            full_shape = self.u.shape
+            self.config.param_fields = {
+                name: np.asarray(value)[slicer] if np.shape(value) == full_shape else value
+                for name, value in param_fields.items()
+            }
         new_coords_1d = dict(self.coords_1d)
         new_coords_1d["x"] = np.asarray(new_coords_1d["x"]).reshape(-1)[n_slice_start:n_slice_end]
 
-- 
2.43.0


From 887652df1c74e3de2b0fbf46a146341f8720d122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 06/69] fix: SGA equation labels name the configured target
 field and axis

---
 kd/model/sga/sgapde/context.py  | 2 +-
 kd/model/sga/sgapde/equation.py | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 77dfd79..9483762 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -1085,7 +1085,7 @@ class ProblemContext:
         self.default_u2 = np.reshape(self.u**2, (flat_size, 1))
         self.default_u3 = np.reshape(self.u**3, (flat_size, 1))
         self.default_terms = self.default_u
-        self.default_names = ['u']
+        self.default_names = [self.target_field]
         self.num_default = self.default_terms.shape[1]
 
         # 若无解析模板或显式标记为无真解，则跳过 ground-truth 误差计算
diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index 50b3669..53c4823 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -38,12 +38,9 @@ class SGAEquationDetails:
 
 
 def _infer_lhs_label(config) -> str:
-    raw = getattr(config, 'left_side', None)
-    if not raw:
-        return 'u_t'
-    if isinstance(raw, str) and '=' in raw:
-        return raw.split('=', 1)[1].strip() or 'u_t'
-    return 'u_t'
+    target_field = getattr(config, 'target_field', None) or 'u'
+    lhs_axis = getattr(config, 'lhs_axis', None) or 't'
+    return f'{target_field}_{lhs_axis}'
 
 
 def extract_equation_details(pde, context, *, coefficient_tol: float = _DEFAULT_TOL) -> SGAEquationDetails:
-- 
2.43.0


From bdc12ba52a03a28e8b7bcaa88b2e4d167c37368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 07/69] fix: SGA LaTeX keeps the grouping of derivative and
 power operands

---
 kd/model/sga/sgapde/equation.py | 70 ++++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 10 deletions(-)

diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index 53c4823..9dd2c4c 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import copy
+import re
 from dataclasses import dataclass
 from typing import Iterable, Literal, Sequence
 
@@ -259,7 +260,12 @@ def _render_leaf(name: str) -> str:
         'rho': '\\rho',
         'sigma': '\\sigma',
     }
-    return mapping.get(name, name)
+    if name in mapping:
+        return mapping[name]
+    base, sep, axis = name.rpartition('_')
+    if sep and base and axis and '_' not in base:
+        return f"{mapping.get(base, base)}_{{{axis}}}"
+    return name
 
 
 def _combine_node(name: str, children: Sequence[str], *, notation: str = "subscript") -> str:
@@ -279,14 +285,14 @@ def _combine_node(name: str, children: Sequence[str], *, notation: str = "subscr
         return f"{base}^{{3}}"
     if name == 'd':
         var = _render_derivative_variable(children)
-        operand = children[0]
+        operand = _group_operand(children[0], notation)
         if notation == "subscript":
             merged = _merge_subscript(operand, var)
             return merged if merged is not None else f"{operand}_{{{var}}}"
         return f"\\frac{{\\partial {operand}}}{{\\partial {var}}}"
     if name == 'd^2':
         var = _render_derivative_variable(children)
-        operand = children[0]
+        operand = _group_operand(children[0], notation)
         if notation == "subscript":
             merged = _merge_subscript(operand, var + var)
             return merged if merged is not None else f"{operand}_{{{var}{var}}}"
@@ -332,14 +338,58 @@ def _merge_subscript(operand: str, new_sub: str) -> str | None:
     return f"{base}_{{{existing_sub}{new_sub}}}"
 
 
-def _ensure_group(expr: str) -> str:
-    if expr.startswith('(') and expr.endswith(')'):
+_SYMBOL_RE = re.compile(r"\\?[A-Za-z0-9_]+")
+_SUBSCRIPT_RE = re.compile(r"_\{[^{}]*\}")
+
+
+def _closing_index(expr: str, start: int) -> int:
+    """Index of the bracket closing the one at ``start`` (-1 when there is none)."""
+    opening = expr[start]
+    closing = {'(': ')', '{': '}'}[opening]
+    depth = 0
+    for i in range(start, len(expr)):
+        if expr[i] == opening:
+            depth += 1
+        elif expr[i] == closing:
+            depth -= 1
+            if depth == 0:
+                return i
+    return -1
+
+
+def _is_atomic(expr: str) -> bool:
+    """True for one symbol or one parenthesised group, with at most one subscript."""
+    if expr.startswith('('):
+        end = _closing_index(expr, 0) + 1
+    else:
+        match = _SYMBOL_RE.match(expr)
+        end = match.end() if match else 0
+        if expr[:end].endswith('_'):
+            end -= 1
+    if end <= 0:
+        return False
+    rest = expr[end:]
+    return not rest or _SUBSCRIPT_RE.fullmatch(rest) is not None
+
+
+def _is_single_fraction(expr: str) -> bool:
+    if not expr.startswith('\\frac{'):
+        return False
+    end = _closing_index(expr, 5)
+    if end < 0 or expr[end + 1:end + 2] != '{':
+        return False
+    return _closing_index(expr, end + 1) == len(expr) - 1
+
+
+def _group_operand(expr: str, notation: str) -> str:
+    """Parenthesise the operand of a derivative unless it is a single item."""
+    if _is_atomic(expr) or (notation != "subscript" and _is_single_fraction(expr)):
         return expr
-    if expr.startswith('\\frac'):
-        return f"({expr})"
-    if any(ch in expr for ch in [' ', '+', '-']):
-        return f"({expr})"
-    return expr
+    return f"({expr})"
+
+
+def _ensure_group(expr: str) -> str:
+    return expr if _is_atomic(expr) else f"({expr})"
 
 
 __all__ = [
-- 
2.43.0


From fab3e940c4a3a331ee6395074b15ca0489581c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 08/69] fix: replacing an equal-reward item keeps the priority
 queue a heap

---
 kd/model/discover/dso/memory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kd/model/discover/dso/memory.py b/kd/model/discover/dso/memory.py
index a1999ba..46381f7 100644
--- a/kd/model/discover/dso/memory.py
+++ b/kd/model/discover/dso/memory.py
@@ -275,6 +275,7 @@ class UniquePriorityQueue(Queue):
                 new_ = ItemContainer(score, item, extra_data)
                 self.heap[id_],new_ = new_, self.heap[id_]
                 popped_item = new_.item
+                heapq.heapify(self.heap)
             else:
                 _, popped_item, _ = heapq.heappushpop(
                     self.heap, ItemContainer(score, item, extra_data))
-- 
2.43.0


From 8e294c0bcc889ba81a6f9362ea9306af16b880a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 09/69] fix: viz configure(save_dir=None) resets the output
 directory

---
 kd/viz/_style.py | 8 +++++---
 kd/viz/core.py   | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/kd/viz/_style.py b/kd/viz/_style.py
index 2e9dc11..12c7609 100644
--- a/kd/viz/_style.py
+++ b/kd/viz/_style.py
@@ -29,18 +29,20 @@ class VizConfig:
 
 _CONFIG = VizConfig()
 
+UNSET: Any = object()  # "not given": ``save_dir=None`` resets the directory
+
 
 def configure(
     *,
     style: Optional[Dict[str, Any]] = None,
-    save_dir: Union[str, Path, None] = None,
+    save_dir: Union[str, Path, None] = UNSET,
     backend: Optional[str] = None,
 ) -> VizConfig:
     if style is not None:
         _CONFIG.style = dict(DEFAULT_STYLE)
         _CONFIG.style.update(style)
-    if save_dir is not None:
-        _CONFIG.save_dir = Path(save_dir)
+    if save_dir is not UNSET:
+        _CONFIG.save_dir = None if save_dir is None else Path(save_dir)
     if backend is not None:
         matplotlib.use(backend, force=True)
         _CONFIG.backend = backend
diff --git a/kd/viz/core.py b/kd/viz/core.py
index 14514de..b59b9a9 100644
--- a/kd/viz/core.py
+++ b/kd/viz/core.py
@@ -17,7 +17,7 @@ from ._contracts import (
     TimeSliceComparisonData,
 )
 from ._helpers import resolve_output_path
-from ._style import VizConfig, configure as configure_style, get_config, style_context
+from ._style import UNSET, VizConfig, configure as configure_style, get_config, style_context
 
 
 @dataclass
@@ -57,7 +57,7 @@ class VizContext:
 def configure(
     *,
     style: Optional[Dict[str, Any]] = None,
-    save_dir: Union[str, Path, None] = None,
+    save_dir: Union[str, Path, None] = UNSET,
     backend: Optional[str] = None,
 ) -> VizConfig:
     return configure_style(style=style, save_dir=save_dir, backend=backend)
-- 
2.43.0


From fbca5e12c4b22fcd5f8da4ba838226f824ae65d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 10/69] fix: DLGA field comparison replaces the previous plot
 in the same directory

---
 kd/viz/_adapters/dlga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index 04af42b..f3deafd 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -131,8 +131,8 @@ class DLGAVizAdapter:
             output_dir=str(path.parent),
         )
         produced = path.parent / 'pde_comparison.png'
-        if produced.exists() and not path.exists():
-            produced.rename(path)
+        if produced.exists():
+            produced.replace(path)
         return VizResult(intent='field_comparison', paths=[path], metadata={'field_comparison': data})
 
     def _time_slices(self, model, ctx) -> VizResult:
-- 
2.43.0


From 7d7eec6aebba22b76d95911acb2436e78a26bcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 11/69] fix: plot requests go to the adapter of the most
 specific class

Lookup walked the registry in registration order, found lazily registered
adapters by exact class name only, and an adapter removed before its first
use came back when it was resolved.
---
 kd/viz/registry.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/kd/viz/registry.py b/kd/viz/registry.py
index b6aa236..80c9258 100644
--- a/kd/viz/registry.py
+++ b/kd/viz/registry.py
@@ -29,6 +29,8 @@ def register_lazy_adapter(class_name: str, resolver: Any) -> None:
 
 
 def unregister_adapter(model_cls: Type[Any]) -> None:
+    # Resolve a pending lazy adapter first, so that it cannot reappear later.
+    _resolve_lazy(model_cls.__name__)
     _ADAPTERS.pop(model_cls, None)
 
 
@@ -44,7 +46,8 @@ def _resolve_lazy(class_name: str) -> None:
         return
     model_cls, adapter = resolver()
     if model_cls is not None and adapter is not None:
-        _ADAPTERS[model_cls] = adapter
+        # An adapter registered explicitly in the meantime takes precedence.
+        _ADAPTERS.setdefault(model_cls, adapter)
 
 
 def get_adapter(target: Any) -> Optional[VizAdapter]:
@@ -52,25 +55,25 @@ def get_adapter(target: Any) -> Optional[VizAdapter]:
         return None
     model_cls = target if isinstance(target, type) else type(target)
 
-    adapter = _ADAPTERS.get(model_cls)
-    if adapter is not None:
-        return adapter
-
-    # Check lazy adapters by class name before subclass walk.
-    class_name = model_cls.__name__
-    if class_name in _LAZY_ADAPTERS:
-        _resolve_lazy(class_name)
-        adapter = _ADAPTERS.get(model_cls)
+    # Most specific class first; lazy adapters are resolved by class name.
+    for cls in model_cls.__mro__:
+        if cls not in _ADAPTERS:
+            _resolve_lazy(cls.__name__)
+        adapter = _ADAPTERS.get(cls)
         if adapter is not None:
             return adapter
 
-    for registered_cls, registered_adapter in _ADAPTERS.items():
+    # Virtual subclasses (ABC.register) do not show up in the MRO.
+    best_cls = None
+    for registered_cls in _ADAPTERS:
         try:
-            if issubclass(model_cls, registered_cls):
-                return registered_adapter
+            if issubclass(model_cls, registered_cls) and (
+                best_cls is None or issubclass(registered_cls, best_cls)
+            ):
+                best_cls = registered_cls
         except TypeError:
             continue
-    return None
+    return _ADAPTERS.get(best_cls)
 
 
 def iter_registered() -> Iterable[tuple[Type[Any], VizAdapter]]:
-- 
2.43.0


From 93e0b09c5696acd618ea3256000a244decfef83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 12/69] fix: merging configuration dictionaries works on
 current Python and shares nothing with its sources

---
 kd/model/discover/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kd/model/discover/utils.py b/kd/model/discover/utils.py
index 07c3de8..23b42f3 100644
--- a/kd/model/discover/utils.py
+++ b/kd/model/discover/utils.py
@@ -1,6 +1,6 @@
 """Utility functions used in deep symbolic optimization."""
 
-import collections
+from collections.abc import Mapping
 import copy
 import functools
 import numpy as np
@@ -264,14 +264,16 @@ def safe_merge_dicts(base_dict, update_dict):
         new_dict : dict
             Dictionary containing values from the merged dictionaries.
     """
+    base_dict = copy.deepcopy(base_dict)
+    update_dict = copy.deepcopy(update_dict)
     if base_dict is None:
         return update_dict
     if update_dict is None:
         return base_dict
-    base_dict = copy.deepcopy(base_dict)
     for key, value in update_dict.items():
-        if isinstance(value, collections.Mapping):
-            base_dict[key] = safe_merge_dicts(base_dict.get(key, {}), value)
+        base_value = base_dict.get(key)
+        if isinstance(value, Mapping) and isinstance(base_value, Mapping):
+            base_dict[key] = safe_merge_dicts(base_value, value)
         else:
             base_dict[key] = value
     return base_dict
-- 
2.43.0


From b398f18be5ebe0084766c6491a476a0f88a92d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 13/69] fix: KD_Discover accepts a configuration file path

---
 kd/model/kd_discover.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 840f7a3..3ec3853 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -25,7 +25,6 @@ from .discover.task import set_task
 from .discover.controller import Controller
 from .discover.dso.prior import make_prior
 from .discover.program import Program,from_str_tokens,from_tokens
-from .discover.config import load_config
 from .discover.state_manager import make_state_manager as manager_make_state_manager
 from .discover.pinn import PINN_model
 from .discover.utils import safe_merge_dicts
@@ -278,7 +277,9 @@ class KD_Discover(BaseRL):
             config: Configuration dictionary or path.
         """
         if isinstance(config, str):
-            config = load_config(config)
+            # Only the user's entries: the defaults are merged in below.
+            with open(config, encoding='utf-8') as f:
+                config = json.load(f)
         elif config is None:
             config = {}
 
-- 
2.43.0


From 43ce4b3c6ef63222e6c47942df2ee7d7d8ee7224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 14/69] fix: estimator parameters of KD_Discover and KD_DLGA
 can be read back and set

---
 kd/model/dlga.py                   |  1 +
 kd/model/kd_discover.py            | 17 +++++++++++++++++
 kd/model/kd_discover_regression.py |  6 ++++++
 kd/model/kd_dlga.py                | 11 +++++++++--
 4 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 246c203..e768d13 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -98,6 +98,7 @@ class DLGA(BaseGa):
             Batch_Norm=False,
         )
 
+        self.input_dim = input_dim
         self.max_iter = max_iter
         self.eq_latex = ""
         self.epi = epi
diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 3ec3853..1cadfa3 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -94,6 +94,8 @@ class KD_Discover(BaseRL):
         """
         self.n_iterations = n_iterations
         self.n_samples_per_batch = n_samples_per_batch
+        self.binary_operators = binary_operators
+        self.unary_operators = unary_operators
         self.operator = binary_operators + unary_operators
         self.out_path = out_path
          
@@ -101,8 +103,17 @@ class KD_Discover(BaseRL):
         self.seed = seed
         self.core_num = core_num
         self.base_config_file = "./discover/config/config_pde.json"
+        self.config_out = config_out
         self.set_config(config_out)
 
+    def set_params(self, **params):
+        super().set_params(**params)
+        if 'binary_operators' in params or 'unary_operators' in params:
+            self.operator = self.binary_operators + self.unary_operators
+        if 'config_out' in params:
+            self.set_config(self.config_out)
+        return self
+
     def setup(self):
         """Setup model components.
         
@@ -484,9 +495,15 @@ class KD_Discover_SPR(KD_Discover):
         """
         super().__init__(*args, config_out=None, **kwargs)
         self.base_config_file = "./discover/config/config_pde_pinn.json"
+        self.config_out = config_out
         self.set_config(config_out)
         self.is_realtime = False
 
+    @classmethod
+    def _get_param_names(cls):
+        # The constructor forwards its arguments to KD_Discover.
+        return KD_Discover._get_param_names()
+
     def set_config(self, config=None):
         """Set model configuration.
 
diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index a844d1c..3517fc1 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -30,11 +30,17 @@ class KD_Discover_Regression(KD_Discover):
     def __init__(self, *args, config_out=None, **kwargs):
         super().__init__(*args, config_out=None, **kwargs)
         self.base_config_file = "./discover/config/config_regression.json"
+        self.config_out = config_out
         self.set_config(config_out)
         self.best_program_ = None
         self.result_ = None
         self.n_features_in_ = None
 
+    @classmethod
+    def _get_param_names(cls):
+        # The constructor forwards its arguments to KD_Discover.
+        return KD_Discover._get_param_names()
+
     def _validate_inputs(self, X, y, var_names: Sequence[str] | None):
         X_arr = np.asarray(X, dtype=float)
         y_arr = np.asarray(y, dtype=float).reshape(-1)
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index ac0d889..116d86b 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -16,13 +16,20 @@ class KD_DLGA(DLGA):
     """
 
     def __init__(self, operators: list[str], epi: float, input_dim: int, verbose: bool = True, **kwargs):
-        self.user_operators = operators
-        self.library_size = len(operators)
+        self.operators = operators
         self.verbose = verbose
         super().__init__(epi=epi, input_dim=input_dim, **kwargs)
         self.equations_ = None
         self.best_equation_ = None
 
+    @property
+    def operators(self):
+        return self.user_operators
+
+    @operators.setter
+    def operators(self, operators):
+        self.user_operators = operators
+        self.library_size = len(operators)
 
     def generate_meta_data(self, X):
         """Build the feature library (Theta) and metadata from the trained network."""
-- 
2.43.0


From 142011820d8c44af661595617a36bb8977a598d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 15/69] fix: a copied Attrdict no longer refers to its source

---
 kd/utils/attrdict.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/kd/utils/attrdict.py b/kd/utils/attrdict.py
index 9106c29..5a44a0b 100644
--- a/kd/utils/attrdict.py
+++ b/kd/utils/attrdict.py
@@ -19,11 +19,9 @@ class Attrdict(dict):
 
     def __init__(self, *args, **kwargs):
         """
-        Initialize the dictionary and bind its internal dictionary to the instance.
+        Initialize the dictionary.
         """
         super(Attrdict, self).__init__(*args, **kwargs)
-        # Avoid shadowing by explicitly setting an internal reference for attributes
-        object.__setattr__(self, "_internal_dict", self)
 
     def __getattr__(self, item):
         """
-- 
2.43.0


From c6baf8cac92f0a795ac09530989162b2ed662463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 16/69] fix: KD_Discover keeps its own copy of the operator
 lists

---
 kd/model/kd_discover.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 1cadfa3..c089508 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -94,9 +94,9 @@ class KD_Discover(BaseRL):
         """
         self.n_iterations = n_iterations
         self.n_samples_per_batch = n_samples_per_batch
-        self.binary_operators = binary_operators
-        self.unary_operators = unary_operators
-        self.operator = binary_operators + unary_operators
+        self.binary_operators = list(binary_operators)
+        self.unary_operators = list(unary_operators)
+        self.operator = self.binary_operators + self.unary_operators
         self.out_path = out_path
          
         self.dataset = None
-- 
2.43.0


From 8ceed9bfa2bec01848d9848a7b7081a6e1550c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 17/69] fix: PDEDataset accessors follow the stored axes and
 the coordinates

---
 kd/dataset/_base.py | 59 ++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index c0c10f8..e94e8d8 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -486,6 +486,16 @@ class PDEDataset(MetaData):
         self.t = coords_1d.get("t")
         self.usol = fields_data[target_field]
 
+    def _xt_field(self) -> np.ndarray:
+        """Return the target field with axes (x, t), whatever order it is stored in."""
+        if self.axis_order is None or self.axis_order == ["x", "t"]:
+            return self.usol
+        if set(self.axis_order) == {"x", "t"}:
+            return self.usol.T
+        raise ValueError(
+            f"This method requires a dataset with axes 'x' and 't', got axes {self.axis_order}."
+        )
+
     def get_datapoint(self, x_id: int, t_id: int) -> Tuple[float, float, float]:
         """
         Retrieves the (x, t) coordinates and the corresponding solution value.
@@ -494,9 +504,10 @@ class PDEDataset(MetaData):
         :param t_id: Index in the temporal dimension.
         :return: A tuple (x, t, usol) representing the coordinates and solution.
         """
+        usol = self._xt_field()
         if not (0 <= x_id < len(self.x)) or not (0 <= t_id < len(self.t)):
             raise IndexError("Index out of range.")
-        return self.x[x_id], self.t[t_id], self.usol[x_id, t_id]
+        return self.x[x_id], self.t[t_id], usol[x_id, t_id]
 
     def get_data(self) -> Dict[str, Any]:
         """
@@ -514,10 +525,11 @@ class PDEDataset(MetaData):
                 - sampled_points is an array of shape (n, 2) with (x, t) pairs
                 - sampled_usol is an array of shape (n,) with corresponding solution values
         """
+        usol = self._xt_field()
         total_points = len(self.x) * len(self.t)
         
-        # Convert ratio to absolute count if n_samples is a float < 1
-        if isinstance(n_samples, float) and 0 < n_samples < 1:
+        # Convert ratio to absolute count if n_samples is a float in (0, 1]
+        if isinstance(n_samples, float) and 0 < n_samples <= 1:
             n_samples = int(total_points * n_samples)
 
         if n_samples > total_points:
@@ -525,9 +537,9 @@ class PDEDataset(MetaData):
 
         if method == 'random':
             indices = np.random.choice(total_points, n_samples, replace=False)
-            x_samples, t_samples = np.unravel_index(indices, self.usol.shape)
+            x_samples, t_samples = np.unravel_index(indices, usol.shape)
             sampled_points = np.column_stack((self.x[x_samples], self.t[t_samples]))
-            sampled_usol = self.usol[x_samples, t_samples]
+            sampled_usol = usol[x_samples, t_samples]
 
         elif method == 'uniform':
             grid_size = int(np.sqrt(n_samples))
@@ -538,15 +550,15 @@ class PDEDataset(MetaData):
                 self.x[x_samples.flatten()],
                 self.t[t_samples.flatten()]
             ))
-            sampled_usol = self.usol[x_samples.flatten(), t_samples.flatten()]
+            sampled_usol = usol[x_samples.flatten(), t_samples.flatten()]
 
         elif method == 'spline':
             grid_size = int(np.sqrt(n_samples))
             x_new = np.linspace(self.x.min(), self.x.max(), grid_size)
             t_new = np.linspace(self.t.min(), self.t.max(), grid_size)
-            spline = interp2d(self.t, self.x, self.usol, kind='cubic')
+            spline = interp2d(self.t, self.x, usol, kind='cubic')
             usol_new = spline(t_new, x_new)
-            x_samples, t_samples = np.meshgrid(x_new, t_new)
+            x_samples, t_samples = np.meshgrid(x_new, t_new, indexing='ij')
             sampled_points = np.column_stack((x_samples.flatten(), t_samples.flatten()))
             sampled_usol = usol_new.flatten()
 
@@ -558,16 +570,20 @@ class PDEDataset(MetaData):
     def mesh(self, indexing='ij') -> np.ndarray:
         """
         Returns a 2D coordinate grid where each row is a combination of (x, t).
-        Equivalent to np.meshgrid(x, t) but flattened into a 2D array.
+        Equivalent to np.meshgrid(x, t) but flattened into a 2D array. With the default
+        ``indexing='ij'`` the rows follow ``usol.ravel()``.
 
         :return: A 2D array of shape (len(x) * len(t), 2) where each row is (x, t).
         """
-        X, T = np.meshgrid(self.x, self.t, indexing=indexing)
+        self._xt_field()  # refuses datasets with other axes
+        if self.axis_order == ["t", "x"]:
+            T, X = np.meshgrid(self.t, self.x, indexing=indexing)
+        else:
+            X, T = np.meshgrid(self.x, self.t, indexing=indexing)
         return np.column_stack([X.ravel(), T.ravel()])
 
     def mesh_bounds(self, indexing='ij') -> np.ndarray:
-        X, T = np.meshgrid(self.x, self.t, indexing=indexing)
-        mesh_data = np.column_stack([X.ravel(), T.ravel()])
+        mesh_data = self.mesh(indexing=indexing)
         return mesh_data.min(0), mesh_data.max(0)
     
     def get_boundaries(self) -> Dict[str, Tuple[float, float]]:
@@ -596,12 +612,10 @@ class PDEDataset(MetaData):
         :param axis: Direction of differentiation ('x' or 't').
         :return: The computed derivative array.
         """
-        if axis == 'x':
-            return np.gradient(self.usol, axis=0)
-        elif axis == 't':
-            return np.gradient(self.usol, axis=1)
-        else:
+        axes = self.axis_order or ["x", "t"]
+        if axis not in ('x', 't') or axis not in axes:
             raise ValueError("Invalid axis name, must be 'x' or 't'.")
+        return np.gradient(self.usol, getattr(self, axis), axis=axes.index(axis))
 
     def get_range(self, x_range: Tuple[float, float], t_range: Tuple[float, float]) -> Dict[str, np.ndarray]:
         """
@@ -611,12 +625,13 @@ class PDEDataset(MetaData):
         :param t_range: Tuple representing the range of t values (min_t, max_t).
         :return: A dictionary containing subsets of x, t, and usol.
         """
-        x_start, x_end = np.searchsorted(self.x, [x_range[0], x_range[1]])
-        t_start, t_end = np.searchsorted(self.t, [t_range[0], t_range[1]])
+        usol = self._xt_field()
+        x_ids = np.flatnonzero((self.x >= x_range[0]) & (self.x < x_range[1]))
+        t_ids = np.flatnonzero((self.t >= t_range[0]) & (self.t < t_range[1]))
 
-        return {'x': self.x[x_start:x_end], 
-                't': self.t[t_start:t_end], 
-                'usol': self.usol[x_start:x_end, t_start:t_end]}
+        return {'x': self.x[x_ids],
+                't': self.t[t_ids],
+                'usol': usol[np.ix_(x_ids, t_ids)]}
 
     def get_size(self) -> Tuple[int, int]:
         """ Returns the dimensions of the solution array (x dimension, t dimension). """
-- 
2.43.0


From 1b1b961504eba05099fc31bdebf4a6ea4392d79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 18/69] fix: PDEDataset refuses pde_data without x, t or usol

---
 kd/dataset/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index e94e8d8..45f951a 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -380,6 +380,9 @@ class PDEDataset(MetaData):
     ) -> None:
         """Initialize in legacy 2D mode."""
         if pde_data is not None:
+            missing = [key for key in ("x", "t", "usol") if pde_data.get(key) is None]
+            if missing:
+                raise ValueError(f"pde_data lacks the required entries {missing}.")
             self.x = np.asarray(pde_data.get("x"), dtype=float).flatten()
             self.t = np.asarray(pde_data.get("t"), dtype=float).flatten()
             self.usol = np.real(np.asarray(pde_data.get("usol")))
-- 
2.43.0


From f85482c95e5ab6c59a269e8651958cd61b741e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 19/69] fix: loading a square grid keeps the stored orientation

---
 kd/dataset/__init__.py | 8 +++++---
 kd/dataset/_base.py    | 2 +-
 kd/runner.py           | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index fb47d36..f942ec7 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -49,7 +49,7 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
         x = np.asarray(np.load(data_path / info['files']['x']), dtype=float).flatten()
         t = np.asarray(np.load(data_path / info['files']['t']), dtype=float).flatten()
 
-        if u.shape == (len(t), len(x)):
+        if u.shape == (len(t), len(x)) and len(x) != len(t):
             u = u.T
 
         dataset = PDEDataset(
@@ -69,9 +69,11 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
         target_shape = info.get('shape')
         if target_shape:
             # 数据文件有时是 (nt, nx)，因此需要在匹配时考虑转置
-            if data.shape == tuple(reversed(target_shape)):
+            if data.shape == tuple(target_shape):
+                pass
+            elif data.shape == tuple(reversed(target_shape)):
                 data = data.T
-            elif data.shape != target_shape:
+            else:
                 data = data.reshape(target_shape)
         shape = data.shape
 
diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 45f951a..8cff0ee 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -762,7 +762,7 @@ def load_pde_dataset(
         u_data = np.asarray(pde_data[u_key])
 
         # 确保 u_data 的形状与 (len(x), len(t)) 对齐
-        if u_data.shape == (len(t_data), len(x_data)):
+        if u_data.shape == (len(t_data), len(x_data)) and len(x_data) != len(t_data):
             u_data = u_data.T
 
         # 4. 将所有信息送入 PDEDataset 进行标准化封装
diff --git a/kd/runner.py b/kd/runner.py
index 5555677..8e3b8d0 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -51,7 +51,7 @@ def load_dataset(config):
             x = np.asarray(raw[file_config.get("x_key", "x")], dtype=float).flatten()
             t = np.asarray(raw[file_config.get("t_key", "t")], dtype=float).flatten()
             u = np.asarray(raw[file_config.get("u_key", "usol")])
-            if u.shape == (len(t), len(x)):
+            if u.shape == (len(t), len(x)) and len(x) != len(t):
                 u = u.T
             return PDEDataset(equation_name="uploaded", x=x, t=t, usol=u)
 
-- 
2.43.0


From a7daa5c6d0d22898dffc901145b0c84cfc64a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 20/69] fix: DatasetInfo.update with an unknown name changes
 nothing

---
 kd/dataset/_info.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kd/dataset/_info.py b/kd/dataset/_info.py
index ea22c8f..50d0d03 100644
--- a/kd/dataset/_info.py
+++ b/kd/dataset/_info.py
@@ -111,11 +111,11 @@ class DatasetInfo:
         Args:
             **kwargs: Key-value pairs representing attributes to update in the instance.
         """
-        for key, value in kwargs.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        for key in kwargs:
+            if not hasattr(self, key):
                 raise AttributeError(f"'{self.__class__.__name__}' object has no attribute '{key}'")
+        for key, value in kwargs.items():
+            setattr(self, key, value)
 
     def to_dict(self) -> dict:
         """
-- 
2.43.0


From 57e93cd263d5bda1c04d02c27fb5f5aba4971e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 21/69] fix: only loadable datasets are listed, and loading
 another one raises

---
 kd/dataset/__init__.py  | 2 ++
 kd/dataset/_registry.py | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index f942ec7..fe06328 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -100,6 +100,8 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
             domain=info.get('domain'),
             **info.get('keys', {}),
             **kwargs)
+        if dataset is None:
+            raise ValueError(f"Dataset '{name}' could not be loaded from {info['file']}.")
         return _tag_dataset(dataset, name)
 
 _REGRESSION_REGISTRY = {
diff --git a/kd/dataset/_registry.py b/kd/dataset/_registry.py
index be20897..c2f5716 100644
--- a/kd/dataset/_registry.py
+++ b/kd/dataset/_registry.py
@@ -203,12 +203,13 @@ def get_dataset_info(name: str) -> dict:
     if name not in PDE_REGISTRY:
         raise ValueError(
             f"Unknown dataset: {name}. "
-            f"Available datasets: {list(PDE_REGISTRY.keys())}"
+            f"Available datasets: {list_available_datasets()}"
         )
     return PDE_REGISTRY[name]
 
 def list_available_datasets() -> list:
-    return list(PDE_REGISTRY.keys())
+    """Names that :func:`kd.dataset.load_pde` can load (pending entries are left out)."""
+    return [name for name, info in PDE_REGISTRY.items() if info.get('status') != 'pending']
 
 def get_dataset_sym_true(name: str) -> str:
     info = get_dataset_info(name)
-- 
2.43.0


From be5a52b127ebdcc53ba1f30784e055e8a07ad314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 22/69] fix: DLGA crossover and selection follow the population
 size

---
 kd/model/dlga.py    | 6 +++---
 kd/model/kd_dlga.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index e768d13..ad841ca 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -325,7 +325,7 @@ class DLGA(BaseGa):
         Returns:
             list: New population after crossover.
         """
-        Chrom, size_pop = self.Chrom, self.n_generations
+        Chrom, size_pop = self.Chrom, self.pop_size
         Chrom1, Chrom2 = Chrom[::2], Chrom[1::2]
         for i in range(int(size_pop / 2)):
             n1 = np.random.randint(0, len(Chrom1[i]))
@@ -397,7 +397,7 @@ class DLGA(BaseGa):
             name_list.append(name)
         # Select best 50% individuals
         re1 = list(
-            map(fitness_list.index, heapq.nsmallest(int(size_pop / 2), fitness_list))
+            map(fitness_list.index, heapq.nsmallest(max(1, int(size_pop / 2)), fitness_list))
         )
 
         for index in re1:
@@ -406,7 +406,7 @@ class DLGA(BaseGa):
             new_coef.append(coef_list[index])
             new_name.append(name_list[index])
         # Fill the rest with new random individuals
-        for _ in range(int(size_pop / 2)):
+        for _ in range(size_pop - len(new_Chrom)):
             new = DLGA.random_genome(self)
             new_Chrom.append(new)
 
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index 116d86b..386eba2 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -192,7 +192,7 @@ class KD_DLGA(DLGA):
             fitness_list.append(MSE)
             coef_list.append(coef)
             name_list.append(name)
-        num_to_keep = int(size_pop / 2)
+        num_to_keep = max(1, int(size_pop / 2))
         if len(fitness_list) < num_to_keep:
             num_to_keep = len(fitness_list)
         re1 = list(map(fitness_list.index, heapq.nsmallest(num_to_keep, fitness_list)))
-- 
2.43.0


From f54bfcca9c578d0eeec1c1b9c5bd1a02202cf3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 23/69] fix: DLGA evolution starts from the best initial
 chromosome and a fresh history

---
 kd/model/dlga.py    | 23 +++++++++++++++++++----
 kd/model/kd_dlga.py | 10 +++-------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index ad841ca..2cbde0d 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -497,18 +497,33 @@ class DLGA(BaseGa):
             print(f"Current string state: {string}")
             raise
 
+    def _rank_population(self):
+        """Score every chromosome and order the population, best first."""
+        scored = []
+        for chrom in self.Chrom:
+            if not chrom:
+                scored.append(([], float('inf'), ""))
+                continue
+            gene_translate, length_penalty_coef = self.translate_DNA(chrom)
+            coef, MSE, _, name = self.get_fitness(gene_translate, length_penalty_coef)
+            scored.append((coef, MSE, name))
+        order = sorted(range(len(scored)), key=lambda i: scored[i][1])
+        self.Chrom = [self.Chrom[i] for i in order]
+        self.coef = [scored[i][0] for i in order]
+        self.Fitness = [scored[i][1] for i in order]
+        self.name = [scored[i][2] for i in order]
+
     def evolution(self):
         """Run genetic algorithm evolution following old strategy."""
         self.Chrom = []
-        self.Fitness = []
+        self.fitness_history = []
+        self.evolution_history = []
         # Initialize population
         for iter in range(self.pop_size):
             intial_genome = DLGA.random_genome(self)
             self.Chrom.append(intial_genome)
-            gene_translate, length_penalty_coef = DLGA.translate_DNA(self, intial_genome)
-            coef, MSE, MSE_true, name = DLGA.get_fitness(self, gene_translate, length_penalty_coef)
-            self.Fitness.append(MSE)
         DLGA.delete_duplicates(self)
+        DLGA._rank_population(self)
 
         # Create results directory
         try:
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index 386eba2..fefd0b3 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -129,17 +129,13 @@ class KD_DLGA(DLGA):
 
     def evolution(self):
         self.Chrom = []
-        self.Fitness = []
+        self.fitness_history = []
+        self.evolution_history = []
         for _ in range(self.pop_size):
             initial_genome = self.random_genome()
             self.Chrom.append(initial_genome)
-            if not initial_genome:
-                self.Fitness.append(float('inf'))
-                continue
-            gene_translate, length_penalty_coef = self.translate_DNA(initial_genome)
-            _, MSE, _, _ = self.get_fitness(gene_translate, length_penalty_coef)
-            self.Fitness.append(MSE)
         self.delete_duplicates()
+        self._rank_population()
         os.makedirs("result_save/", exist_ok=True)
 
         for iter_num in tqdm(range(self.n_generations)):
-- 
2.43.0


From b3d83034386a9f57250cc3dee67a5c8b9cff508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 24/69] fix: KD_DLGA refuses operators it cannot build

---
 kd/model/kd_dlga.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index fefd0b3..b5db3df 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -61,10 +61,12 @@ class KD_DLGA(DLGA):
             utt = torch.zeros_like(u)
         available_ops = {'u': u, 'u_x': ux, 'u_t': ut, 'u_xx': uxx, 'u_xxx': uxxx, 'u_tt': utt}
         # 1. Theta 矩阵的构建依然严格遵守 user_operators，这用于方程搜索
+        unknown = [op_name for op_name in self.user_operators if op_name not in available_ops]
+        if unknown:
+            raise ValueError(f"Unknown operators {unknown}; available: {sorted(available_ops)}")
         theta_columns = []
         for op_name in self.user_operators:
-            if op_name in available_ops:
-                theta_columns.append(available_ops[op_name])
+            theta_columns.append(available_ops[op_name])
         self.Theta = torch.concatenate(theta_columns, axis=1) if theta_columns else torch.empty(X.shape[0], 0).to(self.device)
 
         # 2. metadata 则存储所有计算出的项，使其成为一个完整的“数据源”
-- 
2.43.0


From 6cc1414eafa6fe243f79764ae9d70dd0a5e458f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 25/69] fix: DLGA LaTeX names terms by the operator list in
 force

---
 kd/viz/dlga_eq2latex.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/kd/viz/dlga_eq2latex.py b/kd/viz/dlga_eq2latex.py
index 3440818..b09dcab 100644
--- a/kd/viz/dlga_eq2latex.py
+++ b/kd/viz/dlga_eq2latex.py
@@ -17,6 +17,12 @@ DEFAULT_LATEX_STYLE_MAP = {
     "uxxx": "u_{xxx}",
     "ut": "u_t",    # 更标准的 LaTeX 可以是 r"\frac{\partial u}{\partial t}"
     "utt": "u_{tt}", # r"\frac{\partial^2 u}{\partial t^2}"
+    # KD_DLGA operator names and left-hand sides
+    "u_x": "u_x",
+    "u_xx": "u_{xx}",
+    "u_xxx": "u_{xxx}",
+    "u_t": "u_t",
+    "u_tt": "u_{tt}",
 }
 
 
@@ -170,7 +176,7 @@ def dlga_eq2latex(
     for i, module in enumerate(chromosome):
         print(f"    Term {i+1} - Module (gene indices): {module}")
         # Further explain the meaning of the module
-        term_parts = [DLGA_INTERNAL_TERM_NAMES[idx] if 0 <= idx < len(DLGA_INTERNAL_TERM_NAMES) else f"Unknown Gene({idx})" for idx in module]
+        term_parts = [name[idx] if 0 <= idx < len(name) else f"Unknown Gene({idx})" for idx in module]
         print(f"      Meaning (product of terms): {' * '.join(term_parts) if term_parts else 'Base constant term'}")
 
     print(f"  Coefficients (NumPy array, corresponding to each module/term in the chromosome):")
@@ -178,15 +184,15 @@ def dlga_eq2latex(
         print(f"    Term {i+1} - Coefficient: {coeff_row[0]:.4f}")
         
     print(f"  Left-hand side term name (string): {lhs_name_str}")
-    print(f"  (Note: Gene indices in the chromosome map to the following list: {DLGA_INTERNAL_TERM_NAMES})")
+    print(f"  (Note: Gene indices in the chromosome map to the following list: {name})")
     print("--- Equation Renderer data reception end ---\n")
 
     # Generate LaTeX string
     dlga_latex_str = chromosome_to_latex(
         chromosome=chromosome,
         coefficients=coefficients,
-        lhs_name_str=lhs_name_str
-        # dlga_term_names and latex_style_map will use the function's default values
+        lhs_name_str=lhs_name_str,
+        dlga_term_names=name,
     )
 
     print(f"[Equation Renderer INFO]: LaTeX: {dlga_latex_str}")
-- 
2.43.0


From 61eebc93f598900397cec3fc81af8aea3c1fc375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 26/69] fix: DLGA training shuffles copies of the data

---
 kd/model/dlga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 2cbde0d..c66334b 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -119,7 +119,8 @@ class DLGA(BaseGa):
         Returns:
             tuple: (trained network, best epoch)
         """
-        # Shuffle data
+        # Shuffle data (on copies: the caller's arrays stay as they are)
+        X, y = np.array(X), np.array(y)
         state = np.random.get_state()
         np.random.shuffle(X)
         np.random.set_state(state)
-- 
2.43.0


From b135a3ce121c1e228d881321a7f76d472a4be6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 27/69] fix: DLGA validation loss of one-dimensional targets

---
 kd/model/dlga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index c66334b..bc3323e 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -163,7 +163,7 @@ class DLGA(BaseGa):
             prediction_validate = self.Net(X_valid)
             loss = MSELoss(prediction, y_train.view(-1, 1))
             loss_validate = np.mean(
-                (prediction_validate.detach().cpu().numpy() - y_valid) ** 2
+                (prediction_validate.detach().cpu().numpy() - y_valid.reshape(-1, 1)) ** 2
             )
             loss.backward()
             NN_optimizer.step()
-- 
2.43.0


From 5ae8c63709d43516e6c22a3eeb237752749f390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 28/69] fix: DLGA plots work whichever module is imported first

---
 kd/viz/adapters.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/kd/viz/adapters.py b/kd/viz/adapters.py
index b0ec16f..f85c8a1 100644
--- a/kd/viz/adapters.py
+++ b/kd/viz/adapters.py
@@ -15,8 +15,12 @@ __all__ = [
 def register_default_adapters() -> None:
     try:
         from kd.model.kd_dlga import KD_DLGA  # type: ignore
-    except Exception:  # pragma: no cover
+    except Exception:
+        # kd.model.dlga imports kd.viz: when it is imported first, KD_DLGA does
+        # not exist yet at this point and is resolved on first use instead.
         KD_DLGA = None  # type: ignore
+        from .registry import register_lazy_adapter
+        register_lazy_adapter("KD_DLGA", _resolve_dlga)
     else:
         register_adapter(KD_DLGA, DLGAVizAdapter())
 
@@ -41,6 +45,15 @@ def register_default_adapters() -> None:
     register_lazy_adapter("KD_PySR", _resolve_pysr)
 
 
+def _resolve_dlga():
+    """Lazily resolve KD_DLGA class and its adapter."""
+    try:
+        from kd.model.kd_dlga import KD_DLGA  # type: ignore
+    except Exception:  # pragma: no cover
+        return None, None
+    return KD_DLGA, DLGAVizAdapter()
+
+
 def _resolve_pysr():
     """Lazily resolve KD_PySR class and its adapter."""
     try:
-- 
2.43.0


From 541cc90c980c1bb9092bf69415256c72f4cf1a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 29/69] fix: EqGPT terms are computed as the quantities they
 name

---
 kd/model/eqgpt/calculate_terms.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/kd/model/eqgpt/calculate_terms.py b/kd/model/eqgpt/calculate_terms.py
index 34bfc33..7285ef7 100644
--- a/kd/model/eqgpt/calculate_terms.py
+++ b/kd/model/eqgpt/calculate_terms.py
@@ -54,7 +54,7 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         Hxxxx = torch.autograd.grad(outputs=Hxxx.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return Hxxxx.cpu().data.numpy()
     if word=='(u^2)xx':
-        H2x= torch.autograd.grad(outputs=(Hx**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
+        H2x= torch.autograd.grad(outputs=(u**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
         H2xx = torch.autograd.grad(outputs=H2x.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return H2xx.cpu().data.numpy()
     if word=='(uux)x':
@@ -233,12 +233,12 @@ def calculate_terms(word,Net,database,variables,nx,nt):
     if word=='exp(x)':
         return torch.exp(database[:,x_index]).cpu().data.numpy()
     if word=='uyyt':
-        Hy = H_grad[:, 2].reshape(-1,1)
+        Hy = H_grad[:, y_index].reshape(-1,1)
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, t_index].reshape(-1, 1)
         return Hyyt.cpu().data.numpy()
     if word=='sint':
-        return torch.sin(database[:,x_index]).cpu().data.numpy()
+        return torch.sin(database[:,t_index]).cpu().data.numpy()
     if word=='sinx':
         return torch.sin(database[:, x_index]).cpu().data.numpy()
     if word=='(uxx+ux/x)^2':
@@ -276,7 +276,7 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         return result.cpu().data.numpy()
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
@@ -336,7 +336,7 @@ def calculate_terms_PINN(word,Net,database,variables):
         Hxxxx = torch.autograd.grad(outputs=Hxxx.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return Hxxxx
     if word=='(u^2)xx':
-        H2x= torch.autograd.grad(outputs=(Hx**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
+        H2x= torch.autograd.grad(outputs=(u**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
         H2xx = torch.autograd.grad(outputs=H2x.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return H2xx
     if word=='(uux)x':
@@ -515,12 +515,12 @@ def calculate_terms_PINN(word,Net,database,variables):
     if word=='exp(x)':
         return torch.exp(database[:,x_index])
     if word=='uyyt':
-        Hy = H_grad[:, 2].reshape(-1,1)
+        Hy = H_grad[:, y_index].reshape(-1,1)
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, t_index].reshape(-1, 1)
         return Hyyt
     if word=='sint':
-        return torch.sin(database[:,x_index])
+        return torch.sin(database[:,t_index])
     if word=='sinx':
         return torch.sin(database[:, x_index])
     if word=='(uxx+ux/x)^2':
@@ -558,7 +558,7 @@ def calculate_terms_PINN(word,Net,database,variables):
         return result
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
-- 
2.43.0


From 8da731fef2c4129810829301fb1515f0c278b1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 30/69] fix: EqGPT BiLaplace(u) includes the third dimension
 when there is one

---
 kd/model/eqgpt/calculate_terms.py | 46 ++++++++++++++-----------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/kd/model/eqgpt/calculate_terms.py b/kd/model/eqgpt/calculate_terms.py
index 7285ef7..afbbcf9 100644
--- a/kd/model/eqgpt/calculate_terms.py
+++ b/kd/model/eqgpt/calculate_terms.py
@@ -118,24 +118,21 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
         Hyyy = torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
         Hyyyy = torch.autograd.grad(outputs=Hyyy.sum(), inputs=database, create_graph=True)[0][:,y_index].reshape(-1, 1)
-        # if 'z' in variables:
-        #     Hz =H_grad[:, z_index].reshape(-1,1)
-        #     Hzz = torch.autograd.grad(outputs=Hz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
-        #     Hzzz = torch.autograd.grad(outputs=Hzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
-        #     Hzzzz = torch.autograd.grad(outputs=Hzzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
-        #     Hxxy=torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        #     Hxxyy=torch.autograd.grad(outputs=Hxxy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        #     Hyyz= torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     Hyyzz= torch.autograd.grad(outputs=Hyyz.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     Hxxz=torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     Hxxzz=torch.autograd.grad(outputs=Hxxz.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     result=Hxxxx+Hyyyy+Hzzzz+2*Hxxyy+2*Hyyzz+2*Hxxzz
-        # else:
         Hxxy = torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1,
                                                                                                                  1)
         Hxxyy = torch.autograd.grad(outputs=Hxxy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(
             -1, 1)
         result = Hxxxx + Hyyyy + 2 * Hxxyy
+        if 'z' in variables:
+            Hz = H_grad[:, z_index].reshape(-1, 1)
+            Hzz = torch.autograd.grad(outputs=Hz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hzzz = torch.autograd.grad(outputs=Hzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hzzzz = torch.autograd.grad(outputs=Hzzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hyyz = torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hyyzz = torch.autograd.grad(outputs=Hyyz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hxxz = torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hxxzz = torch.autograd.grad(outputs=Hxxz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            result = result + Hzzzz + 2 * Hyyzz + 2 * Hxxzz
         del Hxxxx
         del Hyyyy
         del Hxxyy
@@ -400,24 +397,21 @@ def calculate_terms_PINN(word,Net,database,variables):
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
         Hyyy = torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
         Hyyyy = torch.autograd.grad(outputs=Hyyy.sum(), inputs=database, create_graph=True)[0][:,y_index].reshape(-1, 1)
-        # if 'z' in variables:
-        #     Hz =H_grad[:, z_index].reshape(-1,1)
-        #     Hzz = torch.autograd.grad(outputs=Hz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
-        #     Hzzz = torch.autograd.grad(outputs=Hzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
-        #     Hzzzz = torch.autograd.grad(outputs=Hzzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
-        #     Hxxy=torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        #     Hxxyy=torch.autograd.grad(outputs=Hxxy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        #     Hyyz= torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     Hyyzz= torch.autograd.grad(outputs=Hyyz.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     Hxxz=torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     Hxxzz=torch.autograd.grad(outputs=Hxxz.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     result=Hxxxx+Hyyyy+Hzzzz+2*Hxxyy+2*Hyyzz+2*Hxxzz
-        # else:
         Hxxy = torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1,
                                                                                                                  1)
         Hxxyy = torch.autograd.grad(outputs=Hxxy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(
             -1, 1)
         result = Hxxxx + Hyyyy + 2 * Hxxyy
+        if 'z' in variables:
+            Hz = H_grad[:, z_index].reshape(-1, 1)
+            Hzz = torch.autograd.grad(outputs=Hz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hzzz = torch.autograd.grad(outputs=Hzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hzzzz = torch.autograd.grad(outputs=Hzzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hyyz = torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hyyzz = torch.autograd.grad(outputs=Hyyz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hxxz = torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hxxzz = torch.autograd.grad(outputs=Hxxz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            result = result + Hzzzz + 2 * Hyyzz + 2 * Hxxzz
         del Hxxxx
         del Hyyyy
         del Hxxyy
-- 
2.43.0


From 86f12609b839c4349addfb9793180ee869ffbd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 31/69] fix: EqGPT duplicate terms are recognised by factors
 and divisors

---
 kd/model/eqgpt/continue_train_GPT_all.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index e7a856b..7be2112 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -175,6 +175,7 @@ def print_num_parameters(model):
 def delete_duplicate(sentence):
     all_sentence=[]
     temp_sentence=[]
+    sentence=list(sentence)  # the caller's sentence stays as it is
     if sentence[-1]==1:
         sentence.pop(-1)
     for word in sentence:
@@ -187,8 +188,11 @@ def delete_duplicate(sentence):
     no_duplicate=[]
     true_duplicate=[]
     for sentence in all_sentence:
-        if sorted(sentence[::2]) not in no_duplicate:
-            no_duplicate.append(sorted(sentence[::2]))
+        # same factors and same divisors (the word after a '/'), in any order
+        divisors=sorted(sentence[i] for i in range(2,len(sentence),2) if sentence[i-1]==4)
+        factors=sorted(sentence[i] for i in range(0,len(sentence),2) if i==0 or sentence[i-1]!=4)
+        if (factors,divisors) not in no_duplicate:
+            no_duplicate.append((factors,divisors))
             true_duplicate.append(sentence)
     concise_sentence=[]
     for sentence in true_duplicate:
-- 
2.43.0


From e7a868201b5be2ad5d803c2b0ae843972eccb5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 32/69] fix: EqGPT keeps undefined rewards out and lets the
 list of best equations fill up

---
 kd/model/eqgpt/continue_train_GPT_all.py | 9 ++++++++-
 kd/model/kd_eqgpt.py                     | 9 +++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index 7be2112..8b8883f 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -1,4 +1,5 @@
 import json
+import math
 import pickle
 import matplotlib.pyplot as plt
 import pandas as pd
@@ -315,7 +316,9 @@ def calculate_reward(ulti_sentence,all_Net,all_database,words2value,mask_invalid
                     reward=0
         #print(all_reward)
         # plot_reward(all_reward,'L')  # disabled: called per candidate, too slow
-        reward=np.mean(np.array(all_reward))
+        reward=np.mean(np.array(all_reward)) if all_reward else 0
+        if not np.isfinite(reward):
+            reward=0
     if ({word2id['u'], word2id['sin(u)']}.issubset(terms)
             or {word2id['u'], word2id['sinh(u)']}.issubset(terms)
             or {word2id['sin(u)'], word2id['sinh(u)']}.issubset(terms)
@@ -377,6 +380,8 @@ def get_mask_invalid(variables):
     return mask_invalid
 
 def find_min_no_repeat(all_reward,samples=400):
+    # undefined rewards never rank
+    all_reward = torch.nan_to_num(all_reward, nan=-math.inf, posinf=-math.inf, neginf=-math.inf)
     best_index = torch.topk(all_reward, samples).indices.data.numpy().tolist()
     best_award = torch.topk(all_reward, samples).values.data.numpy().tolist()
     min_index=[]
@@ -384,6 +389,8 @@ def find_min_no_repeat(all_reward,samples=400):
     for i in range(len(best_award)):
         index=best_index[i]
         award=best_award[i]
+        if award == -math.inf:
+            break
         if award not in min_award:
             min_award.append(award)
             min_index.append(index)
diff --git a/kd/model/kd_eqgpt.py b/kd/model/kd_eqgpt.py
index 1170237..b2084c0 100644
--- a/kd/model/kd_eqgpt.py
+++ b/kd/model/kd_eqgpt.py
@@ -475,15 +475,16 @@ class KD_EqGPT:
             potential_text = all_sentence[second_index[p_idx]]
             array = np.asarray(best_award)
             idx_arr = np.where((array - potential_award) < 0)[0]
-            if len(idx_arr) == 0:
+            if len(idx_arr) == 0 and len(array) >= 10:
                 continue
             if np.isin(potential_award, array):
                 continue
-            ins_idx = idx_arr[0]
+            ins_idx = idx_arr[0] if len(idx_arr) else len(array)
             best_sentence.insert(ins_idx, potential_text)
             best_award.insert(ins_idx, potential_award)
-            best_sentence.pop(-1)
-            best_award.pop(-1)
+            if len(best_award) > 10:
+                best_sentence.pop(-1)
+                best_award.pop(-1)
 
         return best_award, best_sentence
 
-- 
2.43.0


From ae46cdf69812e2f6a6c7c0a52780a1e701739cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 33/69] fix: keep the line endings of the SGA tree module as
 they were

---
 kd/model/sga/sgapde/tree.py | 478 ++++++++++++++++++------------------
 1 file changed, 239 insertions(+), 239 deletions(-)

diff --git a/kd/model/sga/sgapde/tree.py b/kd/model/sga/sgapde/tree.py
index 627a4b7..90019fe 100644
--- a/kd/model/sga/sgapde/tree.py
+++ b/kd/model/sga/sgapde/tree.py
@@ -1,239 +1,239 @@
-import copy
-import numpy as np
-
-from kd.utils.debug_utils import profile
-
-class Node:
-    """
-        1. depth: 节点深度
-        2. idx: 当前深度的第几个节点
-        3. parent_idx: 父节点是上一层的第几个节点
-        4. name: 节点详情
-        5. child_num: 节点拥有几个孩子节点(单运算还是双运算)
-        6. child_st: 下一层从第几个节点开始是当前的孩子节点
-        7. var: 节点variable/operation
-        8. cache: 保留运算至今的数据
-        9. status: 初始化为child_num，用于记录遍历状态
-        10. full: 完整信息，以OP或VAR形式表示
-    """
-    @profile
-    def __init__(self, depth, idx, parent_idx, name, full, child_num, child_st, var):
-        self.depth = depth
-        self.idx = idx
-        self.parent_idx = parent_idx
-
-        self.name = name
-        self.child_num = child_num
-        self.child_st = child_st
-        self.status = self.child_num
-        self.var = var
-        self.full = full
-        self.cache = copy.deepcopy(var) # self.cache = var
-
-    def __str__(self): # 提供节点详情
-        return self.name
-
-    def reset_status(self): # 初始化status
-        self.status = self.child_num
-
-
-class Tree: #对应于pde中的一个term
-    def __init__(self, context, max_depth, p_var):
-        self.max_depth = max_depth
-        self.tree = [[] for i in range(max_depth)]
-        self.preorder, self.inorder = None, None
-
-        root = context.ROOT[np.random.randint(0, len(context.ROOT))] # 随机产生初始root（一种OPS）# e.g. ['sin', 1, np.sin], ['*', 2, np.multiply] 
-        node = Node(depth=0, idx=0, parent_idx=None, name=root[0], var=root[2], full=root,
-                    child_num=int(root[1]), child_st=0) # 设置初始节点Node
-        self.tree[0].append(node) # 初始节点
-
-        depth = 1
-        while depth < max_depth:
-            next_cnt = 0 #child_st=next_cnt， child_st: 下一层从第几个节点开始是当前的孩子节点
-            # 对应每一个父节点都要继续生成他们的子节点
-            for parent_idx in range(len(self.tree[depth - 1])): #一个tree中某个depth处的node的子节点可以是多个，因此有可能在某个深度处存在多个node
-                parent = self.tree[depth - 1][parent_idx] # 提取出对应深度处的对应操作符（某个node）
-                if parent.child_num == 0: # 如果当前node没有子节点，则跳过当前循环的剩余语句，然后继续进行下一轮循环
-                    continue
-                for j in range(parent.child_num):
-                    # rule 1: parent var为d 且j为1时，必须确保右子节点为x
-                    if parent.name in {'d', 'd^2'} and j == 1: # j == 0 为d的左侧节点，j == 1为d的右侧节点
-                        node = context.den[np.random.randint(0, len(context.den))] # 随机产生一个微分运算的denominator，一般是xyt
-                        node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
-                                    var=node[2], full=node, child_num=int(node[1]), child_st=None)
-                        self.tree[depth].append(node)
-                    # rule 2: 最底一层必须是var，不能是op
-                    elif depth == max_depth - 1:
-                        node = context.VARS[np.random.randint(0, len(context.VARS))]
-                        node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
-                                    var=node[2], full=node, child_num=int(node[1]), child_st=None)
-                        self.tree[depth].append(node)
-                    else:
-                    # rule 3: 不是最底一层，p_var概率产生var，如果产生var，则child_st为None。当产生的是ops的时候，产生对应node时对应的child_st会通过计算获得。以便对应于下一层中该ops对应的子节点。
-                        if np.random.random() <= p_var:
-                            node = context.VARS[np.random.randint(0, len(context.VARS))]
-                            node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
-                                        var=node[2], full=node, child_num=int(node[1]), child_st=None)
-                            self.tree[depth].append(node)
-                        else:
-                            node = context.OPS[np.random.randint(0, len(context.OPS))]
-                            node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
-                                        var=node[2], full=node, child_num=int(node[1]), child_st=next_cnt)
-                            next_cnt += node.child_num
-                            self.tree[depth].append(node)
-            depth += 1
-
-        ret = []
-        dfs(ret, self.tree, depth=0, idx=0)
-        self.preorder = ' '.join([x for x in ret])
-        model_tree = copy.deepcopy(self.tree)
-        self.inorder = tree2str_merge(model_tree)
-
-        # print(self.preorder)
-        # print(self.inorder)
-        # print('---------------')
-
-    def mutate(self, context, p_mute): #直接替换原有tree中的某个节点，用同类型节点替换，因此后续位置不需要重新生成（类似替换了一个基因，而不是把后续基因序列重新产生，具有物理含义，也易于实现）
-        global see_tree
-        see_tree = copy.deepcopy(self.tree)
-        depth = 1
-        while depth < self.max_depth:
-            next_cnt = 0
-            idx_this_depth = 0  # 这个深度第几个节点
-            for parent_idx in range(len(self.tree[depth - 1])):
-                parent = self.tree[depth - 1][parent_idx]
-                if parent.child_num == 0:
-                    continue
-                for j in range(parent.child_num):  # parent 的第j个子节点
-                    not_mute = np.random.choice([True, False], p=([1 - p_mute, p_mute]))
-                    # rule 1: 不突变则跳过
-                    if not_mute:
-                        next_cnt += self.tree[depth][parent.child_st + j].child_num
-                        continue
-                    # 当前节点的类型
-                    current = self.tree[depth][parent.child_st + j]
-                    temp = self.tree[depth][parent.child_st + j].name
-                    num_child = self.tree[depth][parent.child_st + j].child_num  # 当前变异节点的子节点数
-                    # print('mutate!')
-                    if num_child == 0: # 叶子节点
-                        node = context.VARS[np.random.randint(0, len(context.VARS))] # rule 2: 叶节点必须是var，不能是op
-                        while node[0] == temp or (parent.name in {'d', 'd^2'} and node[0] not in context.den[:, 0]):# rule 3: 如果编译前后结果重复，或者d的节点不在den中（即出现不能求导的对象），则重新抽取
-                            if context.simple_mode and parent.name in {'d', 'd^2'} and node[0] == 'x': # simple_mode中，遇到对于x的导数，直接停止变异
-                                break
-                            if parent.name in {'d', 'd^2'} and np.all(context.den[:, 0] == temp): # 唯一可用的求导轴就是当前节点，没有可替换的对象，保持不变
-                                node = current.full
-                                break
-                            node = context.VARS[np.random.randint(0, len(context.VARS))] # 重新抽取一个vars
-                        new_node = Node(depth=depth, idx=idx_this_depth, parent_idx=parent_idx, name=node[0],
-                                    var=node[2], full=node, child_num=int(node[1]), child_st=None)
-                        self.tree[depth][parent.child_st + j] = new_node #替换成变异的节点
-                    else: # 非叶子节点
-                        if num_child == 1:
-                            node = context.OP1[np.random.randint(0, len(context.OP1))]
-                            while node[0] == temp:  # 避免重复
-                                node = context.OP1[np.random.randint(0, len(context.OP1))]
-                        elif num_child == 2:
-                            node = context.OP2[np.random.randint(0, len(context.OP2))]
-                            right = self.tree[depth + 1][current.child_st + 1].name
-                            while node[0] == temp or (node[0] in {'d', 'd^2'} and right not in context.den[:, 0]):# rule 4: 避免重复，避免生成d以打乱树结构（新d的右子节点不是x）
-                                node = context.OP2[np.random.randint(0, len(context.OP2))]
-                        else:
-                            raise NotImplementedError("Error occurs!")
-
-                        new_node = Node(depth=depth, idx=idx_this_depth, parent_idx=parent_idx, name=node[0],
-                                    var=node[2], full=node, child_num=int(node[1]), child_st=next_cnt)
-                        next_cnt += new_node.child_num
-                        self.tree[depth][parent.child_st + j] = new_node
-                    idx_this_depth += 1
-            depth += 1
-
-        ret = []
-        dfs(ret, self.tree, depth=0, idx=0)
-        self.preorder = ' '.join([x for x in ret])
-        model_tree = copy.deepcopy(self.tree)
-        self.inorder = tree2str_merge(model_tree)
-
-        # print(self.preorder)
-        # print(self.inorder)
-
-
-def dfs(ret, a_tree, depth, idx): #辅助前序遍历，产生一个描述这个tree的名称序列（ret）
-    # print(depth, idx)  # 深度优先遍历的顺序
-    node = a_tree[depth][idx]
-    ret.append(node.name) # 记录当前操作
-    for ix in range(node.child_num):
-        if node.child_st is None:
-            continue
-        dfs(ret, a_tree, depth+1, node.child_st + ix) #进入下一层中下一个节点对应的子节点
-
-
-def tree2str_merge(a_tree):
-    for i in range(len(a_tree) - 1, 0, -1):
-        for node in a_tree[i]:
-            if node.status == 0:
-                if a_tree[node.depth-1][node.parent_idx].status == 1:
-                    if a_tree[node.depth-1][node.parent_idx].child_num == 2:
-                        a_tree[node.depth-1][node.parent_idx].name = a_tree[node.depth-1][node.parent_idx].name + ' ' + node.name + ')'
-                    else:
-                        a_tree[node.depth-1][node.parent_idx].name = '( ' + a_tree[node.depth-1][node.parent_idx].name + ' ' + node.name + ')'
-                elif a_tree[node.depth-1][node.parent_idx].status > 1:
-                    a_tree[node.depth-1][node.parent_idx].name = '(' + node.name + ' ' + a_tree[node.depth-1][node.parent_idx].name
-                a_tree[node.depth-1][node.parent_idx].status -= 1
-    return a_tree[0][0].name
-
-
-# class Point:
-#     def __init__(self, idx, name, child_num, child_idx=[]):
-#         """
-#             1. idx: 当前序列的第几个节点
-#             2. parent_idx: 父节点是第几个节点
-#             3. name: 节点名称
-#             4. child_num: 节点拥有几个孩子节点
-#             5. child_idx: 孩子节点是序列的第几个
-#         """
-#         self.idx = idx
-#         self.name = name
-#         self.child_num = child_num
-#         self.child_idx = child_idx
-
-#     def __str__(self):
-#         return self.name
-
-#     def add_child(self, ix):
-#         self.child_idx.append(ix)
-
-
-# def is_an_equation(seq):  # e.g. (+ u - u u)
-#     def split(seq, idx):
-#         # last element is an op
-#         if idx >= len(seq): return np.inf
-
-#         # idx is the current node
-#         op = ALL[:, 0]
-#         root = ALL[np.where(op == seq[idx])][0]
-#         node = Point(idx=idx, name=root[0], child_num=int(root[1]))
-
-#         if node.child_num != 0:
-#             node.child_idx.append(idx + 1)  # might be wrong for the last node, not fatal though
-#             new_idx = split(seq, idx + 1)  # first child
-#             if node.child_num != 1:  # other children
-#                 node.child_idx.append(new_idx)
-#                 new_idx = split(seq, new_idx)
-#             return new_idx
-
-#         return idx + 1
-
-#     idx = 0
-#     end_idx = split(seq, idx)
-#     if end_idx != len(seq):
-#         return False
-#     return True
-
-
-if __name__ == '__main__':
-    tree = Tree(max_depth=4, p_var=0.5)
-    print(tree.inorder)
-    tree.mutate(p_mute=1)
-    print(tree.inorder)
-
+import copy
+import numpy as np
+
+from kd.utils.debug_utils import profile
+
+class Node:
+    """
+        1. depth: 节点深度
+        2. idx: 当前深度的第几个节点
+        3. parent_idx: 父节点是上一层的第几个节点
+        4. name: 节点详情
+        5. child_num: 节点拥有几个孩子节点(单运算还是双运算)
+        6. child_st: 下一层从第几个节点开始是当前的孩子节点
+        7. var: 节点variable/operation
+        8. cache: 保留运算至今的数据
+        9. status: 初始化为child_num，用于记录遍历状态
+        10. full: 完整信息，以OP或VAR形式表示
+    """
+    @profile
+    def __init__(self, depth, idx, parent_idx, name, full, child_num, child_st, var):
+        self.depth = depth
+        self.idx = idx
+        self.parent_idx = parent_idx
+
+        self.name = name
+        self.child_num = child_num
+        self.child_st = child_st
+        self.status = self.child_num
+        self.var = var
+        self.full = full
+        self.cache = copy.deepcopy(var) # self.cache = var
+
+    def __str__(self): # 提供节点详情
+        return self.name
+
+    def reset_status(self): # 初始化status
+        self.status = self.child_num
+
+
+class Tree: #对应于pde中的一个term
+    def __init__(self, context, max_depth, p_var):
+        self.max_depth = max_depth
+        self.tree = [[] for i in range(max_depth)]
+        self.preorder, self.inorder = None, None
+
+        root = context.ROOT[np.random.randint(0, len(context.ROOT))] # 随机产生初始root（一种OPS）# e.g. ['sin', 1, np.sin], ['*', 2, np.multiply] 
+        node = Node(depth=0, idx=0, parent_idx=None, name=root[0], var=root[2], full=root,
+                    child_num=int(root[1]), child_st=0) # 设置初始节点Node
+        self.tree[0].append(node) # 初始节点
+
+        depth = 1
+        while depth < max_depth:
+            next_cnt = 0 #child_st=next_cnt， child_st: 下一层从第几个节点开始是当前的孩子节点
+            # 对应每一个父节点都要继续生成他们的子节点
+            for parent_idx in range(len(self.tree[depth - 1])): #一个tree中某个depth处的node的子节点可以是多个，因此有可能在某个深度处存在多个node
+                parent = self.tree[depth - 1][parent_idx] # 提取出对应深度处的对应操作符（某个node）
+                if parent.child_num == 0: # 如果当前node没有子节点，则跳过当前循环的剩余语句，然后继续进行下一轮循环
+                    continue
+                for j in range(parent.child_num):
+                    # rule 1: parent var为d 且j为1时，必须确保右子节点为x
+                    if parent.name in {'d', 'd^2'} and j == 1: # j == 0 为d的左侧节点，j == 1为d的右侧节点
+                        node = context.den[np.random.randint(0, len(context.den))] # 随机产生一个微分运算的denominator，一般是xyt
+                        node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
+                                    var=node[2], full=node, child_num=int(node[1]), child_st=None)
+                        self.tree[depth].append(node)
+                    # rule 2: 最底一层必须是var，不能是op
+                    elif depth == max_depth - 1:
+                        node = context.VARS[np.random.randint(0, len(context.VARS))]
+                        node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
+                                    var=node[2], full=node, child_num=int(node[1]), child_st=None)
+                        self.tree[depth].append(node)
+                    else:
+                    # rule 3: 不是最底一层，p_var概率产生var，如果产生var，则child_st为None。当产生的是ops的时候，产生对应node时对应的child_st会通过计算获得。以便对应于下一层中该ops对应的子节点。
+                        if np.random.random() <= p_var:
+                            node = context.VARS[np.random.randint(0, len(context.VARS))]
+                            node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
+                                        var=node[2], full=node, child_num=int(node[1]), child_st=None)
+                            self.tree[depth].append(node)
+                        else:
+                            node = context.OPS[np.random.randint(0, len(context.OPS))]
+                            node = Node(depth=depth, idx=len(self.tree[depth]), parent_idx=parent_idx, name=node[0],
+                                        var=node[2], full=node, child_num=int(node[1]), child_st=next_cnt)
+                            next_cnt += node.child_num
+                            self.tree[depth].append(node)
+            depth += 1
+
+        ret = []
+        dfs(ret, self.tree, depth=0, idx=0)
+        self.preorder = ' '.join([x for x in ret])
+        model_tree = copy.deepcopy(self.tree)
+        self.inorder = tree2str_merge(model_tree)
+
+        # print(self.preorder)
+        # print(self.inorder)
+        # print('---------------')
+
+    def mutate(self, context, p_mute): #直接替换原有tree中的某个节点，用同类型节点替换，因此后续位置不需要重新生成（类似替换了一个基因，而不是把后续基因序列重新产生，具有物理含义，也易于实现）
+        global see_tree
+        see_tree = copy.deepcopy(self.tree)
+        depth = 1
+        while depth < self.max_depth:
+            next_cnt = 0
+            idx_this_depth = 0  # 这个深度第几个节点
+            for parent_idx in range(len(self.tree[depth - 1])):
+                parent = self.tree[depth - 1][parent_idx]
+                if parent.child_num == 0:
+                    continue
+                for j in range(parent.child_num):  # parent 的第j个子节点
+                    not_mute = np.random.choice([True, False], p=([1 - p_mute, p_mute]))
+                    # rule 1: 不突变则跳过
+                    if not_mute:
+                        next_cnt += self.tree[depth][parent.child_st + j].child_num
+                        continue
+                    # 当前节点的类型
+                    current = self.tree[depth][parent.child_st + j]
+                    temp = self.tree[depth][parent.child_st + j].name
+                    num_child = self.tree[depth][parent.child_st + j].child_num  # 当前变异节点的子节点数
+                    # print('mutate!')
+                    if num_child == 0: # 叶子节点
+                        node = context.VARS[np.random.randint(0, len(context.VARS))] # rule 2: 叶节点必须是var，不能是op
+                        while node[0] == temp or (parent.name in {'d', 'd^2'} and node[0] not in context.den[:, 0]):# rule 3: 如果编译前后结果重复，或者d的节点不在den中（即出现不能求导的对象），则重新抽取
+                            if context.simple_mode and parent.name in {'d', 'd^2'} and node[0] == 'x': # simple_mode中，遇到对于x的导数，直接停止变异
+                                break
+                            if parent.name in {'d', 'd^2'} and np.all(context.den[:, 0] == temp): # 唯一可用的求导轴就是当前节点，没有可替换的对象，保持不变
+                                node = current.full
+                                break
+                            node = context.VARS[np.random.randint(0, len(context.VARS))] # 重新抽取一个vars
+                        new_node = Node(depth=depth, idx=idx_this_depth, parent_idx=parent_idx, name=node[0],
+                                    var=node[2], full=node, child_num=int(node[1]), child_st=None)
+                        self.tree[depth][parent.child_st + j] = new_node #替换成变异的节点
+                    else: # 非叶子节点
+                        if num_child == 1:
+                            node = context.OP1[np.random.randint(0, len(context.OP1))]
+                            while node[0] == temp:  # 避免重复
+                                node = context.OP1[np.random.randint(0, len(context.OP1))]
+                        elif num_child == 2:
+                            node = context.OP2[np.random.randint(0, len(context.OP2))]
+                            right = self.tree[depth + 1][current.child_st + 1].name
+                            while node[0] == temp or (node[0] in {'d', 'd^2'} and right not in context.den[:, 0]):# rule 4: 避免重复，避免生成d以打乱树结构（新d的右子节点不是x）
+                                node = context.OP2[np.random.randint(0, len(context.OP2))]
+                        else:
+                            raise NotImplementedError("Error occurs!")
+
+                        new_node = Node(depth=depth, idx=idx_this_depth, parent_idx=parent_idx, name=node[0],
+                                    var=node[2], full=node, child_num=int(node[1]), child_st=next_cnt)
+                        next_cnt += new_node.child_num
+                        self.tree[depth][parent.child_st + j] = new_node
+                    idx_this_depth += 1
+            depth += 1
+
+        ret = []
+        dfs(ret, self.tree, depth=0, idx=0)
+        self.preorder = ' '.join([x for x in ret])
+        model_tree = copy.deepcopy(self.tree)
+        self.inorder = tree2str_merge(model_tree)
+
+        # print(self.preorder)
+        # print(self.inorder)
+
+
+def dfs(ret, a_tree, depth, idx): #辅助前序遍历，产生一个描述这个tree的名称序列（ret）
+    # print(depth, idx)  # 深度优先遍历的顺序
+    node = a_tree[depth][idx]
+    ret.append(node.name) # 记录当前操作
+    for ix in range(node.child_num):
+        if node.child_st is None:
+            continue
+        dfs(ret, a_tree, depth+1, node.child_st + ix) #进入下一层中下一个节点对应的子节点
+
+
+def tree2str_merge(a_tree):
+    for i in range(len(a_tree) - 1, 0, -1):
+        for node in a_tree[i]:
+            if node.status == 0:
+                if a_tree[node.depth-1][node.parent_idx].status == 1:
+                    if a_tree[node.depth-1][node.parent_idx].child_num == 2:
+                        a_tree[node.depth-1][node.parent_idx].name = a_tree[node.depth-1][node.parent_idx].name + ' ' + node.name + ')'
+                    else:
+                        a_tree[node.depth-1][node.parent_idx].name = '( ' + a_tree[node.depth-1][node.parent_idx].name + ' ' + node.name + ')'
+                elif a_tree[node.depth-1][node.parent_idx].status > 1:
+                    a_tree[node.depth-1][node.parent_idx].name = '(' + node.name + ' ' + a_tree[node.depth-1][node.parent_idx].name
+                a_tree[node.depth-1][node.parent_idx].status -= 1
+    return a_tree[0][0].name
+
+
+# class Point:
+#     def __init__(self, idx, name, child_num, child_idx=[]):
+#         """
+#             1. idx: 当前序列的第几个节点
+#             2. parent_idx: 父节点是第几个节点
+#             3. name: 节点名称
+#             4. child_num: 节点拥有几个孩子节点
+#             5. child_idx: 孩子节点是序列的第几个
+#         """
+#         self.idx = idx
+#         self.name = name
+#         self.child_num = child_num
+#         self.child_idx = child_idx
+
+#     def __str__(self):
+#         return self.name
+
+#     def add_child(self, ix):
+#         self.child_idx.append(ix)
+
+
+# def is_an_equation(seq):  # e.g. (+ u - u u)
+#     def split(seq, idx):
+#         # last element is an op
+#         if idx >= len(seq): return np.inf
+
+#         # idx is the current node
+#         op = ALL[:, 0]
+#         root = ALL[np.where(op == seq[idx])][0]
+#         node = Point(idx=idx, name=root[0], child_num=int(root[1]))
+
+#         if node.child_num != 0:
+#             node.child_idx.append(idx + 1)  # might be wrong for the last node, not fatal though
+#             new_idx = split(seq, idx + 1)  # first child
+#             if node.child_num != 1:  # other children
+#                 node.child_idx.append(new_idx)
+#                 new_idx = split(seq, new_idx)
+#             return new_idx
+
+#         return idx + 1
+
+#     idx = 0
+#     end_idx = split(seq, idx)
+#     if end_idx != len(seq):
+#         return False
+#     return True
+
+
+if __name__ == '__main__':
+    tree = Tree(max_depth=4, p_var=0.5)
+    print(tree.inorder)
+    tree.mutate(p_mute=1)
+    print(tree.inorder)
+
-- 
2.43.0


From eda518e824d8690a760372a5f020a215cfebb931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 34/69] fix: EqGPT decoding works when a forbidden symbol
 dominates the scores

---
 kd/model/eqgpt/gpt_model.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/kd/model/eqgpt/gpt_model.py b/kd/model/eqgpt/gpt_model.py
index 17932dc..fc73ce3 100644
--- a/kd/model/eqgpt/gpt_model.py
+++ b/kd/model/eqgpt/gpt_model.py
@@ -299,14 +299,16 @@ class GPT(nn.Module):
 
         prob=nn.functional.softmax(projected, dim=2)
         prob=prob[0,-1].squeeze(0)
-        prob_filter=prob*mask_invalid
+        # renormalise over the allowed symbols only: their probabilities may all
+        # underflow when a forbidden symbol dominates
+        allowed=mask_invalid!=0
         if dec_input.shape[1] % 2 == 0:
-            prob_filter[0]=0
-            prob_filter[5:]=0
-            prob_filter = prob_filter / torch.sum(prob_filter)
+            allowed[0]=False
+            allowed[5:]=False
         if dec_input.shape[1] % 2 == 1:
-            prob_filter[0:6]=0
-            prob_filter = prob_filter / torch.sum(prob_filter)
+            allowed[0:6]=False
+        scores=projected[0,-1].masked_fill(~allowed,float("-inf"))
+        prob_filter=nn.functional.softmax(scores, dim=0)
         prob_filter=prob_filter.cpu().data.numpy()
         #print(prob[0,-1])
         select_prob=random.random()
-- 
2.43.0


From 33eef126f1e92abe42d57072547185a158cc0980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 35/69] fix: EqGPT closes equations that reach the length limit

---
 kd/model/kd_eqgpt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kd/model/kd_eqgpt.py b/kd/model/kd_eqgpt.py
index b2084c0..f95e299 100644
--- a/kd/model/kd_eqgpt.py
+++ b/kd/model/kd_eqgpt.py
@@ -196,6 +196,9 @@ class KD_EqGPT:
                     sentence.append(next_step)
                     if next_step == word2id["E"]:
                         break
+                if sentence[-1] != word2id["E"]:
+                    # length limit reached: close the equation after its last term
+                    sentence[-1] = word2id["E"]
                 # Remove start symbol before reward calculation
                 sentence.pop(0)
                 reward, words2value, mask_invalid = calculate_reward(
-- 
2.43.0


From 326b72d871958cef1d4160041281be1379556b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:27 +0000
Subject: [PATCH 36/69] fix: KD_DLGA refuses datasets whose left-hand axis is
 not t

---
 kd/model/kd_dlga.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index b5db3df..ea06c22 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -307,6 +307,9 @@ class KD_DLGA(DLGA):
         if dataset.usol.ndim != 2:
             raise ValueError("KD_DLGA 目前仅支持 1D 空间 + 时间的 PDE(usol 必须是二维网格）")
 
+        if getattr(dataset, "lhs_axis", None) not in (None, "t"):
+            raise ValueError(f"KD_DLGA only supports lhs_axis='t', got '{dataset.lhs_axis}'.")
+
         if Xy_from not in {"sample", "mesh"}:
             raise ValueError(f"Unsupported Xy_from='{Xy_from}'. Expected 'sample' or 'mesh'.")
 
-- 
2.43.0


From 60235e8c6c6067c799a3363e50ca12c2df9125e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:27 +0000
Subject: [PATCH 37/69] fix: DISCOVER adapters refuse unevenly spaced, complex
 and non-finite data

---
 kd/model/discover/adapter.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/adapter.py b/kd/model/discover/adapter.py
index e575401..51cbf69 100644
--- a/kd/model/discover/adapter.py
+++ b/kd/model/discover/adapter.py
@@ -17,6 +17,23 @@ _MAX_SPATIAL_DIM = 3
 _MIN_SPATIAL_POINTS = 4
 
 
+def _require_even_spacing(axis_name: str, coord: np.ndarray) -> None:
+    """The finite-difference operators use one spacing for the whole axis."""
+    steps = np.diff(coord)
+    if steps.size and not np.allclose(steps, steps[0]):
+        raise ValueError(
+            f"Spatial axis '{axis_name}' must be evenly spaced "
+            "for finite-difference evaluation"
+        )
+
+
+def _real_field(values: Any, name: str) -> np.ndarray:
+    values = np.asarray(values)
+    if np.iscomplexobj(values):
+        raise ValueError(f"Field '{name}' is complex; only real fields are supported")
+    return np.asarray(values, dtype=float)
+
+
 @dataclass
 class DiscoverRegularAdapter:
     """Convert a :class:`~kd.dataset.PDEDataset` into DISCOVER regular-data format.
@@ -77,6 +94,7 @@ class DiscoverRegularAdapter:
 
         if not np.all(np.isfinite(u)):
             raise ValueError("Input field u contains NaN or Inf values")
+        _require_even_spacing("x", x)
 
         if t.size < 3:
             raise ValueError(
@@ -151,7 +169,7 @@ class DiscoverRegularAdapter:
         target_field: str = getattr(dataset, "target_field", "u") or "u"
         lhs_axis: str = getattr(dataset, "lhs_axis", "t") or "t"
 
-        u_raw = np.asarray(dataset.fields_data[target_field], dtype=float)
+        u_raw = _real_field(dataset.fields_data[target_field], target_field)
 
         if not np.all(np.isfinite(u_raw)):
             raise ValueError("Input field u contains NaN or Inf values")
@@ -194,6 +212,7 @@ class DiscoverRegularAdapter:
                     f"Spatial axis '{axis_name}' has zero spacing "
                     f"between consecutive points"
                 )
+            _require_even_spacing(axis_name, coord)
 
         # --- Validate and compute time derivative ---
         t_coord = coords_1d[lhs_axis]
@@ -340,6 +359,9 @@ class DiscoverSparseAdapter:
                 )
             )
 
+        if not np.all(np.isfinite(u)):
+            raise ValueError("Input field data contains NaN or Inf values")
+
         x, t, u = self._apply_cut_quantile(x, t, u)
 
         if self.spline_sample:
@@ -459,7 +481,7 @@ class DiscoverSparseAdapter:
                 "Use sample_ratio to control sampling instead."
             )
 
-        u_raw = np.asarray(dataset.fields_data[target_field], dtype=float)
+        u_raw = _real_field(dataset.fields_data[target_field], target_field)
         if not np.all(np.isfinite(u_raw)):
             raise ValueError("Input field data contains NaN or Inf values")
 
-- 
2.43.0


From 47463660585ce856685abf74653f4ed25482dda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 38/69] fix: Discover: preparing a search again no longer loses
 the configured rules (config was taken apart)

---
 kd/model/discover/dso/prior.py     | 4 +++-
 kd/model/discover/state_manager.py | 3 +--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index 9d548b2..ff4cde9 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -1,4 +1,5 @@
 """Class for Prior object."""
+import copy
 from matplotlib.style import library
 import numpy as np
 import warnings
@@ -40,7 +41,8 @@ def make_prior(library, config_prior):
         
         
     }
-    # import pdb;pdb.set_trace()
+    # The configuration is kept for the next setup: only a copy is taken apart.
+    config_prior = copy.deepcopy(config_prior)
     count_constraints = config_prior.pop("count_constraints", False)
     
     priors = []
diff --git a/kd/model/discover/state_manager.py b/kd/model/discover/state_manager.py
index 42d4288..38e994d 100644
--- a/kd/model/discover/state_manager.py
+++ b/kd/model/discover/state_manager.py
@@ -67,8 +67,7 @@ def make_state_manager(config):
         "grammar": GrammarStateManager
     }
 
-    if config is None:
-        config = {}
+    config = dict(config or {})
 
     # Use HierarchicalStateManager by default
     manager_type = config.pop("type", "hierarchical")
-- 
2.43.0


From 0436e2e05b488ba0c2695c6e789f0278fc726ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 39/69] fix: Discover PINN training: an expression that cannot
 be evaluated adds no loss instead of crashing

---
 kd/model/discover/pinn.py    | 2 ++
 kd/model/discover/stridge.py | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index 6d2dd1b..9c360da 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -318,6 +318,8 @@ class PINN_model:
             #local samling based on observations    
                 if local_sample:
                     loss_res2= pinn_loss(self, program_pde[i], self.x_local, self.t_local, program_pde[i].w, extra_gradient=self.extra_gradient)
+                    if torch.isnan(loss_res2):
+                        loss_res2=torch.tensor([0]).to(loss_mse)
                     self.writer.add_scalar(f"pinn/local_pinn_loss_{i}",loss_res2.item(),epoch)
                     pde_loss+=loss_res2
                 
diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 729c278..93e811c 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -613,7 +613,10 @@ class STRidge(object):
     def calculate_RHS(self, u, x, ut, coefs, execute_func = unsafe_execute_torch,extra_gradient=False ):
         results = self.calculate_RHS_terms(u,x, execute_func,extra_gradient=extra_gradient)
         RHS = 0
-        if isinstance(coefs, list):
+        if not isinstance(results, list):
+            # bad program: no term could be evaluated
+            RHS = results
+        elif isinstance(coefs, list):
             for i in range(len(coefs)):
                 RHS += results[i]*coefs[i]        
         else:
-- 
2.43.0


From 79d0032b79cc1bfd75338f056f3542b529757060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 40/69] fix: KD_Discover: output path, network initialisation
 and N-D settings depend only on the last configuration, seed and dataset

---
 kd/model/kd_discover.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index c089508..f85b67e 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -98,6 +98,8 @@ class KD_Discover(BaseRL):
         self.unary_operators = list(unary_operators)
         self.operator = self.binary_operators + self.unary_operators
         self.out_path = out_path
+        self._out_root = out_path
+        self._derived_out_path = None
          
         self.dataset = None
         self.seed = seed
@@ -128,6 +130,9 @@ class KD_Discover(BaseRL):
         """
         # Clear the cache and reset the compute graph
         Program.clear_cache()
+
+        # The controller is initialised at random: it has to follow the seed too.
+        self.set_seeds(self.seed)
                 
         # initialize
         self.set_task()
@@ -155,12 +160,21 @@ class KD_Discover(BaseRL):
             self.data_class.load_data()
             
             # Save file
-            if self.out_path is not None:
-                self.out_path = os.path.join(self.out_path,
-                                    "discover_{}_{}.csv".format(dataset, self.seed)
-                )            
+            self._set_out_path(dataset)
         self.setup()
 
+    def _set_out_path(self, dataset_name):
+        """Name the output file after the imported data, below the caller's directory."""
+        if self.out_path is None:
+            return
+        if self.out_path != self._derived_out_path:
+            self._out_root = self.out_path
+        self._derived_out_path = os.path.join(
+            self._out_root,
+            f"discover_{dataset_name}_{self.seed}.csv"
+        )
+        self.out_path = self._derived_out_path
+
     def import_dataset(self, dataset, *, sym_true=None, n_input_dim=None, dataset_name=None):
         """Import data through a :class:`~kd.dataset.PDEDataset` instance.
 
@@ -191,11 +205,7 @@ class KD_Discover(BaseRL):
         resolved_name = dataset_name or getattr(dataset, 'legacy_name', None) or \
             getattr(dataset, 'registry_name', None) or getattr(dataset, 'equation_name', None) or "custom_dataset"
         self.dataset = resolved_name
-        if self.out_path is not None:
-            self.out_path = os.path.join(
-                self.out_path,
-                f"discover_{resolved_name}_{self.seed}.csv"
-            )
+        self._set_out_path(resolved_name)
 
         self.setup()
         return self
@@ -571,11 +581,7 @@ class KD_Discover_SPR(KD_Discover):
         resolved_name = dataset_name or getattr(dataset, 'legacy_name', None) or \
             getattr(dataset, 'registry_name', None) or getattr(dataset, 'equation_name', None) or "custom_dataset"
         self.dataset = resolved_name
-        if self.out_path is not None:
-            self.out_path = os.path.join(
-                self.out_path,
-                f"discover_{resolved_name}_{self.seed}.csv"
-            )
+        self._set_out_path(resolved_name)
 
         self.setup()
         return self
@@ -625,6 +631,8 @@ class KD_Discover_SPR(KD_Discover):
     
     def setup(self):
         """Setup model components including PINN."""
+        # The configuration may have been replaced since the data were imported.
+        self._inject_nd_config()
         super().setup()
         self.denoise_pinn = self.make_pinn_model()
         self.denoise_pinn.import_outter_data(self.data_class.get_data())   
@@ -667,19 +675,15 @@ class KD_Discover_SPR(KD_Discover):
         last = False    
         last_best_p = None
         best_tokens = []
-        prefix, _ = os.path.splitext(self.out_path)
         iter_num = self.config_pinn["iter_num"]
         eq_num = self.config_task.get('eq_num', 1)
         
         for i in range(iter_num):
             if i > 0:
                 self.reset_up(reset_controller=False)
-                bsz = self.config_training['batch_size']
-                self.config_training['n_samples'] = 10*bsz
 
             print(f"The No.{i} pde discovery process")   
             results = [self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)]
-            self.out_path = f"{prefix}_{i+1}.csv"
             best_p = [results[j]['program'] for j in range(len(results))]
 
             if len(best_tokens) > 0:
-- 
2.43.0


From 3c7695a0bbb6b8421c5c7216c3ddb07e93f4aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 41/69] fix: DiscoverSparseAdapter: random_state also fixes the
 train/validation split and the collocation points

---
 kd/model/discover/adapter.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/adapter.py b/kd/model/discover/adapter.py
index 51cbf69..18d593c 100644
--- a/kd/model/discover/adapter.py
+++ b/kd/model/discover/adapter.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from contextlib import contextmanager
 from dataclasses import dataclass, field
 from typing import Any, Dict, List, Optional, Tuple
 
@@ -34,6 +35,20 @@ def _real_field(values: Any, name: str) -> np.ndarray:
     return np.asarray(values, dtype=float)
 
 
+@contextmanager
+def _numpy_seed(random_state: Any):
+    """Make draws from numpy's global generator follow ``random_state`` (if given)."""
+    if random_state is None:
+        yield
+        return
+    saved = np.random.get_state()
+    np.random.seed(np.random.default_rng(random_state).integers(2**32))
+    try:
+        yield
+    finally:
+        np.random.set_state(saved)
+
+
 @dataclass
 class DiscoverRegularAdapter:
     """Convert a :class:`~kd.dataset.PDEDataset` into DISCOVER regular-data format.
@@ -387,7 +402,8 @@ class DiscoverSparseAdapter:
         else:
             lb, ub = default_lb, default_ub
 
-        sparse.process_data((lb, ub))
+        with _numpy_seed(self.random_state):
+            sparse.process_data((lb, ub))
 
         result = dict(sparse.get_data())
         if self.cut_quantile is not None:
@@ -542,7 +558,8 @@ class DiscoverSparseAdapter:
         sparse = LegacySparseData(xt, sampled_values)
         if self.colloc_num is not None:
             sparse.colloc_num = int(self.colloc_num)
-        sparse.process_data((lb, ub))
+        with _numpy_seed(self.random_state):
+            sparse.process_data((lb, ub))
 
         result = dict(sparse.get_data())
         result['n_input_dim'] = n_spatial
-- 
2.43.0


From 17e5b8f3dc33ba2ad5bf7161f86b0a1cc4f3a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 42/69] fix: RegularData: find the bundled files from any
 directory (and Kdv at all); loading twice keeps one coordinate

---
 kd/data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kd/data.py b/kd/data.py
index b52483e..8289ab6 100644
--- a/kd/data.py
+++ b/kd/data.py
@@ -8,6 +8,7 @@ This module provides classes for handling different types of PDE data:
 The module supports both regular grid data (RegularData) and sparse sampling data (SparseData).
 """
 
+import os
 from abc import ABC, abstractmethod
 import pandas as pd
 import numpy as np
@@ -135,7 +136,8 @@ class RegularData(BaseDataHandler):
         Raises:
             ValueError: If dataset is not supported.
         """
-        folder_name = './kd/data_file'
+        package = os.path.dirname(os.path.realpath(__file__))
+        folder_name = os.path.join(package, 'data_file')
         if self.source == 'chafee-infante':  # 301*200
             u = np.load(f"{folder_name}/chafee_infante_CI.npy")
             x = np.load(f"{folder_name}/chafee_infante_x.npy").reshape(-1,1)
@@ -150,7 +152,7 @@ class RegularData(BaseDataHandler):
             self.sym_true = 'add,mul,u1,diff,u1,x1,diff2,u1,x1'
 
         elif self.source == 'Kdv':      
-            data = scio.loadmat('./discover/task/pde/data_new/Kdv.mat')
+            data = scio.loadmat(os.path.join(package, 'model/discover/task/pde/data_new/Kdv.mat'))
             u = data.get("uu")
             n,m = u.shape  # 512x201
             x = np.squeeze(data.get("x")).reshape(-1,1)
@@ -164,7 +166,7 @@ class RegularData(BaseDataHandler):
         n, m = u.shape
         self.ut = np.zeros((n, m))
         dt = t[1]-t[0]
-        self.X.append(x)
+        self.X = [x]
         self.u = u
 
         # Compute time derivatives
-- 
2.43.0


From 25f1572193adb1b36d337b2819ba1df947ebb36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 43/69] fix: Discover controller: documented embedding,
 dangling, GRU, multi-layer, rmsprop and var_scale settings work

---
 kd/model/discover/controller.py    | 11 +++++++----
 kd/model/discover/state_manager.py |  7 ++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/kd/model/discover/controller.py b/kd/model/discover/controller.py
index 845a05e..fd2e995 100644
--- a/kd/model/discover/controller.py
+++ b/kd/model/discover/controller.py
@@ -47,7 +47,8 @@ class StructureAwareLSTM(nn.Module):
         if self.initializer == 'zeros':
             return lambda x:nn.init.zeros_(x)
         elif self.initializer == 'var_scale':
-            return lambda x: nn.init.kaiming_uniform_(x, a =math.sqrt(5), mode='fan_avg') 
+            # variance scaling by the mean of fan-in and fan-out, factor 0.5
+            return lambda x: nn.init.xavier_uniform_(x, gain=math.sqrt(0.5))
         #else:
         #    rasie NotImplementedError
 
@@ -229,6 +230,8 @@ class Controller(object):
             self.optimizer = torch.optim.Adam(self.cell.parameters(), lr = self.learning_rate)
         elif optimizer == "sgd":
             self.optimizer = torch.optim.SGD(self.cell.parameters(), lr = self.learning_rate)
+        elif optimizer == "rmsprop":
+            self.optimizer = torch.optim.RMSprop(self.cell.parameters(), lr = self.learning_rate)
 
     def loop_fn(self, time, cell_output, cell_state, loop_state):
     
@@ -237,9 +240,9 @@ class Controller(object):
             obs = self.initial_obs
             next_input = self.state_manager.get_tensor_input(obs)
             obs = torch.tensor(obs, dtype=torch.float32)
-            h_0 = torch.zeros(1, self.batch_size, self.num_units)  # hidden state
-            c_0 = torch.zeros(1, self.batch_size,self.num_units)  # cell state
-            next_cell_state = (h_0, c_0)
+            h_0 = torch.zeros(self.num_layers, self.batch_size, self.num_units)  # hidden state
+            c_0 = torch.zeros(self.num_layers, self.batch_size,self.num_units)  # cell state
+            next_cell_state = (h_0, c_0) if isinstance(self.cell.cell, nn.LSTM) else h_0
             emit_output = None
             actions_ta = []
             obs_ta = []
diff --git a/kd/model/discover/state_manager.py b/kd/model/discover/state_manager.py
index 38e994d..18a4db8 100644
--- a/kd/model/discover/state_manager.py
+++ b/kd/model/discover/state_manager.py
@@ -161,22 +161,23 @@ class HierarchicalStateManager(StateManager):
         action = torch.Tensor(action).to(torch.int64)
         parent = torch.Tensor(parent).to(torch.int64)
         sibling = torch.Tensor(sibling).to(torch.int64)
+        dangling = torch.Tensor(dangling)
         # Action, parent, and sibling inputs are either one-hot or embeddings
         if self.observe_action:
             if self.embedding:
-                x = self.action_embeddings(action)
+                x = F.embedding(action, self.action_embeddings)
             else:
                 x = F.one_hot(action, num_classes=self.library.n_action_inputs)
             observations.append(x)
         if self.observe_parent:
             if self.embedding:
-                x = self.parent_embeddings(parent)
+                x = F.embedding(parent, self.parent_embeddings)
             else:
                 x = F.one_hot(parent, num_classes=self.library.n_parent_inputs)
             observations.append(x)
         if self.observe_sibling:
             if self.embedding:
-                x = self.sibling_embeddings(sibling)
+                x = F.embedding(sibling, self.sibling_embeddings)
             else:
                 x = F.one_hot(sibling, num_classes=self.library.n_sibling_inputs)
             observations.append(x)
-- 
2.43.0


From 3f633021f64322b8e5fa071c3572fc3edbedea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 44/69] fix: symbolic sampler: rules reach every operand, the
 first token obeys its rules, recorded observations stay as shown

---
 kd/model/discover/dso/prior.py       | 33 +++++++++++++++++++++++-----
 kd/model/discover/dso/subroutines.py |  4 +++-
 kd/model/discover/task/task.py       |  6 ++---
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index ff4cde9..c1a47c4 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -533,28 +533,39 @@ class NoInputsConstraint(Constraint):
 
     def __init__(self, library):
         Prior.__init__(self, library)
-
+        # Libraries without state variables (regression) have inputs instead
+        self.required = library.state_tokens
+        self.targets = library.non_state_tokens
+        if len(self.required) == 0:
+            self.required = library.input_tokens
+            self.targets = np.setdiff1d(library.terminal_tokens, self.required)
 
     def validate(self):
-        if len(self.library.non_state_tokens) == 0:
+        if len(self.targets) == 0:
             message = "All terminal tokens are input variables, so all" \
                 "sequences will have an state variable."
             return message
         return None
 
+    def initial_prior(self):
+        # A single-token sequence must be a state variable
+        prior = Prior.initial_prior(self)
+        prior[self.targets] = -np.inf
+        return prior
+
     def __call__(self, actions, parent, sibling, dangling):
         # Constrain when:
         # 1) the expression would end if a terminal is chosen and
         # 2) there are no state variables
         mask = (dangling == 1) & \
-               (np.sum(np.isin(actions, self.library.state_tokens), axis=1) == 0)
+               (np.sum(np.isin(actions, self.required), axis=1) == 0)
         # import pdb;pdb.set_trace()
-        prior = self.make_constraint(mask, self.library.non_state_tokens)
+        prior = self.make_constraint(mask, self.targets)
         return prior
 
     def is_violated(self, actions, parent, sibling):
         # Violated if no input tokens are found in actions
-        tokens = self.library.state_tokens
+        tokens = self.required
         return bool(np.isin(tokens, actions).sum() == 0)
 
     def describe(self):
@@ -748,7 +759,7 @@ class LaplaceConstraint(RelationalConstraint):
     """Class that constrains input Tokens from being the descendants of laplace
     Tokens."""
 
-    def __init__(self, library, extras):
+    def __init__(self, library, extras=()):
         # targets = library.input_tokens
         targets = [token.name for token in library.tokens if token.state_var is None]
         effectors = [name for name in library.names if 'lap' in name or "lap_t" in name]
@@ -789,6 +800,12 @@ class RepeatConstraint(Constraint):
         assert min_ is None, "{}: Repeat minimum constraints are not yet " \
             "supported. This requires knowledge of length constraints.".format(self.__class__.__name__)
 
+    def initial_prior(self):
+        prior = Prior.initial_prior(self)
+        if self.max is not None and self.max < 1:
+            prior[self.tokens] = -np.inf
+        return prior
+
     def __call__(self, actions, parent, sibling, dangling):
         if self.n_objects > 1:
             _, i_batch = get_position(actions, self.library.arities, n_objects=self.n_objects)
@@ -852,6 +869,10 @@ class LengthConstraint(Constraint):
         prior = Prior.initial_prior(self)
         for t in self.library.terminal_tokens:
             prior[t] = -np.inf
+        # A binary root needs at least three tokens
+        if self.max is not None and self.max < 3:
+            for t in self.library.binary_tokens:
+                prior[t] = -np.inf
         return prior
 
     def __call__(self, actions, parent, sibling, dangling):
diff --git a/kd/model/discover/dso/subroutines.py b/kd/model/discover/dso/subroutines.py
index dbbf4c9..e4e1684 100644
--- a/kd/model/discover/dso/subroutines.py
+++ b/kd/model/discover/dso/subroutines.py
@@ -190,7 +190,9 @@ def ancestors(actions, arities, ancestor_tokens):
             if threshold is None:
                 for trig_token in ancestor_tokens:
                     if actions[r, c] == trig_token:
-                        threshold = dangling - 1
+                        # All operands of this token lie below it, not
+                        # only the first one
+                        threshold = dangling - arity
                         break
             # Turn "off" once the branch completes
             else:
diff --git a/kd/model/discover/task/task.py b/kd/model/discover/task/task.py
index 15b8d3d..b78f9c7 100644
--- a/kd/model/discover/task/task.py
+++ b/kd/model/discover/task/task.py
@@ -137,10 +137,8 @@ class HierarchicalTask(Task):
 
         # Update dangling with (arity - 1) for each element in action
         #import pdb;pdb.set_trace()
-        try:
-            dangling += lib.arities[action] - 1
-        except:
-            import pdb;pdb.set_trace()
+        # (not in place: obs is the record of what the previous step was shown)
+        dangling = dangling + (lib.arities[action] - 1)
         prior = self.prior(actions, parent, sibling, dangling) # (?, n_choices)
 
         # Reset initial values when tree completes
-- 
2.43.0


From 1e8d1725e345076f0f88e67afa1e0d9c3f0410b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:12 +0000
Subject: [PATCH 45/69] fix: Program: one expression per token list, own
 constants stay own, saved state is complete, signed terms keep their sign

---
 kd/model/discover/program.py | 88 +++++++++++++++++++++---------------
 kd/model/discover/stridge.py | 14 ++----
 2 files changed, 55 insertions(+), 47 deletions(-)

diff --git a/kd/model/discover/program.py b/kd/model/discover/program.py
index 14e9b12..f9c6643 100644
--- a/kd/model/discover/program.py
+++ b/kd/model/discover/program.py
@@ -7,7 +7,7 @@ from textwrap import indent
 
 import numpy as np
 from sympy.parsing.sympy_parser import parse_expr
-from sympy import pretty
+from sympy import Function, Symbol, pretty
 import time
 
 from .functions import PlaceholderConstant
@@ -100,11 +100,13 @@ def from_str_tokens(str_tokens, skip_cache=False):
     else:
         raise ValueError("Input must be list or string.")
 
-    # Generate base Program (with "const" for constants)
-    p = from_tokens(traversal, skip_cache=skip_cache)
+    # Generate base Program (with "const" for constants). A Program with its own
+    # constants is never the cached one: its constants would replace those of
+    # every other Program with the same tokens.
+    p = from_tokens(traversal, skip_cache=skip_cache or len(constants) > 0)
 
-    # Replace any constants
-    p.set_constants(constants)
+    # Replace any constants (those that belong to the kept tokens)
+    p.set_constants(constants[:len(p.const_pos)])
 
     return p
 
@@ -140,6 +142,9 @@ def from_tokens(tokens, skip_cache=False, on_policy=True, finish_tokens=True):
         or generated from scratch.
     """
 
+    # One integer type whatever the caller's: the bytes are the cache key
+    tokens = np.asarray(tokens, dtype=np.int32)
+
     '''
         Truncate expressions that complete early; extend ones that don't complete
     '''
@@ -228,6 +233,9 @@ class Program(object):
     execute = None          # Link to execute. Either cython or python
     cyfunc = None           # Link to cyfunc lib since we do an include inline
 
+    # Results of evaluating a Program that are saved and restored with it
+    _saved_results = ("r_ridge", "evaluate", "w", "y_hat_rhs", "Theta", "cached_terms")
+
     function_terms = {} #cache the bst reward sample function terms
     reward_list = []
     def __init__(self, tokens=None, on_policy=True):
@@ -295,22 +303,18 @@ class Program(object):
                     
     def __getstate__(self):
         
-        have_r = "r" in self.__dict__
-        have_evaluate = "evaluate" in self.__dict__
-        possible_const = have_r or have_evaluate
-        
+        # Constants keep their place: None where a placeholder has no value yet
+        consts = [self.traversal[i].value for i in self.const_pos]
+
         state_dict = {'tokens' : self.tokens, # string rep comes out different if we cast to array, so we can get cache misses.
-                      'have_r' : bool(have_r),
-                      'r' : float(self.r) if have_r else float(-np.inf), 
-                      'have_evaluate' : bool(have_evaluate),
-                      'evaluate' : self.evaluate if have_evaluate else float(-np.inf), 
-                      'const' : array.array('d', self.get_constants()) if possible_const else float(-np.inf), 
-                      'on_policy_count' : bool(self.on_policy_count),
-                      'off_policy_count' : bool(self.off_policy_count),
+                      'const' : consts,
+                      'cached' : {name : self.__dict__[name] for name in Program._saved_results if name in self.__dict__},
+                      'on_policy_count' : int(self.on_policy_count),
+                      'off_policy_count' : int(self.off_policy_count),
                       'originally_on_policy' : bool(self.originally_on_policy),
                       'invalid' : bool(self.invalid), 
-                      'error_node' : array.array('u', "" if not self.invalid else self.error_node), 
-                      'error_type' : array.array('u', "" if not self.invalid else self.error_type)}    
+                      'error_node' : getattr(self, 'error_node', None), 
+                      'error_type' : getattr(self, 'error_type', None)}    
         
         # In the future we might also return sympy_expr and complexity if we ever need to compute in parallel 
 
@@ -321,23 +325,18 @@ class Program(object):
         # Question, do we need to init everything when we have already run, or just some things?
         self._init(state_dict['tokens'], state_dict['originally_on_policy'])
         
-        have_run = False
-        
-        if state_dict['have_r']:
-            setattr(self, 'r', state_dict['r'])
-            have_run = True
-            
-        if state_dict['have_evaluate']:
-            setattr(self, 'evaluate', state_dict['evaluate'])
-            have_run = True 
-        
-        if have_run:
-            self.set_constants(state_dict['const'].tolist())
-            self.invalid = state_dict['invalid']
-            self.error_node = state_dict['error_node'].tounicode()
-            self.error_type = state_dict['error_type'].tounicode()
-            self.on_policy_count = state_dict['on_policy_count']
-            self.off_policy_count = state_dict['off_policy_count']
+        for pos, value in zip(self.const_pos, state_dict['const']):
+            if value is not None:
+                self.traversal[pos] = PlaceholderConstant(value)
+
+        for name, value in state_dict['cached'].items():
+            setattr(self, name, value)
+
+        self.invalid = state_dict['invalid']
+        self.error_node = state_dict['error_node']
+        self.error_type = state_dict['error_type']
+        self.on_policy_count = state_dict['on_policy_count']
+        self.off_policy_count = state_dict['off_policy_count']
 
     def execute_STR(self,u, x,ut,  test=False, wf=False):
         if wf:
@@ -643,7 +642,7 @@ class Program(object):
             tree = build_tree(tree)
             tree = convert_to_sympy(tree)
             try:
-                expr = parse_expr(tree.__repr__()) # SymPy expression
+                expr = parse_expr(tree.__repr__(), local_dict=sympy_names()) # SymPy expression
             except:
                 expr = tree.__repr__()
             return [expr]
@@ -654,7 +653,7 @@ class Program(object):
                 tree = build_tree(tree)
                 tree = convert_to_sympy(tree)
                 try:
-                    expr = parse_expr(tree.__repr__()) # SymPy expression
+                    expr = parse_expr(tree.__repr__(), local_dict=sympy_names()) # SymPy expression
                 except:
                     expr = tree.__repr__()
                 exprs.append(expr)
@@ -730,6 +729,21 @@ class Program(object):
 
 
 
+def sympy_names():
+    """What the names of the library mean to SymPy: variables are symbols and
+    operators it would carry out itself (e.g. diff) stay unevaluated"""
+
+    known = ("sin", "cos", "tan", "exp", "log", "sqrt", "tanh", "abs")
+    names = {}
+    for t in Program.library.tokens:
+        if t.arity > 0:
+            if t.name not in known:
+                names[t.name] = Function(t.name)
+        elif t.name.isidentifier():
+            names[t.name] = Symbol(t.name)
+    return names
+
+
 def convert_to_sympy(node):
     """Adjusts trees to only use node values supported by sympy"""
 
diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 93e811c..8aed6d3 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -319,16 +319,10 @@ class STRidge(object):
                 
                 return [root]
 
-            if 'sub' in root.val:
+            # both operands carry the sign of the sum they belong to
+            root.children[0].symbol = root.symbol
+            root.children[1].symbol = -root.symbol if 'sub' in root.val else root.symbol
 
-                if root.symbol == 1:
-                    root.children[1].symbol *=-1
-                else:
-                    #
-                    if 'sub' in root.val:    
-                        root.children[0].symbol*=-1
-                        root.children[1].symbol*=-1
-            
             return [split_sum(root.children[0]), split_sum(root.children[1])]
 
         def expand_list(input_list):
@@ -669,4 +663,4 @@ class STRidge(object):
             invalid = True
             error_node, error_type = 'dim_error','dim_error'
 
-        return result,[1 for _ in range(len(self.terms_token))],invalid,error_node, error_type,result
+        return result,[term.symbol for term in self.terms],invalid,error_node, error_type,result
-- 
2.43.0


From db57638db2fdf7266406b48841467d506ba8eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:36 +0000
Subject: [PATCH 46/69] fix: derivatives of integer fields, of a coordinate
 itself, third-order sign and the Laplacians

Differences of unsigned fields wrapped around and integer fields were truncated; a field given on one coordinate was divided by the coordinate instead of differentiated; FiniteDiff of order 3 had the wrong sign and unsupported orders returned zeros; Laplace never compiled and Laplacian_t failed or changed its input in place; the second copy of the routines missed earlier repairs.
---
 kd/model/discover/task/pde/pde_find.py |   2 +
 kd/model/discover/task/pde/utils_fd.py |  48 +++-
 kd/model/discover/task/pde/utils_nn.py |   2 +-
 kd/model/discover/task/pde/utils_v1.py | 310 ++-----------------------
 kd/model/sga/sgapde/PDE_find.py        |   7 +
 kd/utils/solver.py                     |   4 +-
 kd/utils/utils_fd.py                   |   7 +-
 7 files changed, 74 insertions(+), 306 deletions(-)

diff --git a/kd/model/discover/task/pde/pde_find.py b/kd/model/discover/task/pde/pde_find.py
index 3678356..cbf8739 100644
--- a/kd/model/discover/task/pde/pde_find.py
+++ b/kd/model/discover/task/pde/pde_find.py
@@ -68,6 +68,8 @@ def FiniteDiff(u, dx, d):
     dx = Grid spacing.  Assumes uniform spacing
     """
     
+    if u.dtype.kind in 'uib':
+        u = u.astype(float)  # differences of (unsigned) integers would wrap around
     n = u.size
     ux = np.zeros(n, dtype=np.complex64)
     
diff --git a/kd/model/discover/task/pde/utils_fd.py b/kd/model/discover/task/pde/utils_fd.py
index 74d9e58..d3305c9 100644
--- a/kd/model/discover/task/pde/utils_fd.py
+++ b/kd/model/discover/task/pde/utils_fd.py
@@ -1,10 +1,15 @@
 
 import numpy as np
 # from pde_find import *
-from numba import jit,njit
+
+def _as_float(u):
+    """Differences of (unsigned) integers would wrap around"""
+    return u.astype(float) if u.dtype.kind in 'uib' else u
+
 
 def FiniteDiff(u, dx):
     
+    u = _as_float(u)
     n = u.size
     ux = np.zeros(n)
 
@@ -18,6 +23,7 @@ def FiniteDiff(u, dx):
 
 def FiniteDiff2(u, dx):
 
+    u = _as_float(u)
     n = u.size
     ux = np.zeros(n)
 
@@ -34,6 +40,7 @@ def Diff(u, dxt, dim, name='x'):
     """
     Here dx is a scalar, name is a str indicating what it is
     """
+    u = _as_float(u)
 
     n, m = u.shape
     uxt = np.zeros((n, m))
@@ -63,6 +70,7 @@ def Diff2(u, dxt, dim, name='x'):
     """
     Here dx is a scalar, name is a str indicating what it is
     """
+    u = _as_float(u)
     if len(dxt.shape) == 2:
         dxt = dxt[:,0]
     n, m = u.shape
@@ -85,6 +93,7 @@ def Diff3(u, dxt, dim, name='x'):
     """
     Here dx is a scalar, name is a str indicating what it is
     """
+    u = _as_float(u)
 
     n, m = u.shape
     uxt = np.zeros((n, m))
@@ -109,6 +118,7 @@ def Diff4(u, dxt, dim, name='x'):
     """
     Here dx is a scalar, name is a str indicating what it is
     """
+    u = _as_float(u)
 
     n, m = u.shape
     uxt = np.zeros((n, m))
@@ -126,12 +136,24 @@ def Diff4(u, dxt, dim, name='x'):
 
 
 
+def _own_coordinate(u, dxt, order):
+    """Derivative, along a coordinate, of a field given on that coordinate only"""
+    dx = dxt.ravel()[2] - dxt.ravel()[1]
+    scheme = FiniteDiff if order == 1 else FiniteDiff2
+    return scheme(u.ravel(), dx).reshape(u.shape)
+
+
 def Diff_2(u, dxt, name=1):
     """
     Here dx is a scalar, name is a str indicating what it is
     """
+    u = _as_float(u)
     if u.shape == dxt.shape:
-        return u/dxt
+        # a function of this coordinate alone
+        return _own_coordinate(u, dxt, order=1)
+    if u.ndim > name and u.shape[name] == 1 and dxt.size > 1:
+        # does not depend on this coordinate
+        return np.zeros(u.shape)
     t,n,m = u.shape
     uxt = np.zeros((t, n, m))
     if len(dxt.shape) == 2:
@@ -164,8 +186,13 @@ def Diff2_2(u, dxt, name=1):
     """
   
     
+    u = _as_float(u)
     if u.shape == dxt.shape:
-        return u/dxt
+        # a function of this coordinate alone
+        return _own_coordinate(u, dxt, order=2)
+    if u.ndim > name and u.shape[name] == 1 and dxt.size > 1:
+        # does not depend on this coordinate
+        return np.zeros(u.shape)
     t,n,m = u.shape
     uxt = np.zeros((t, n, m))
     dxt = dxt.ravel()
@@ -192,7 +219,6 @@ def Diff2_2(u, dxt, name=1):
 
     return uxt
 
-@jit(nopython=True)
 def Laplace(u,x):
     x1,x2 = x
     uxt = Diff2_2(u,x1, name = 1)
@@ -215,8 +241,13 @@ def Diff_3(u, dxt, name=1):
     """
 
     # import pdb;pdb.set_trace()
+    u = _as_float(u)
     if u.shape == dxt.shape:
-        return u/dxt
+        # a function of this coordinate alone
+        return _own_coordinate(u, dxt, order=1)
+    if u.ndim > name and u.shape[name] == 1 and dxt.size > 1:
+        # does not depend on this coordinate
+        return np.zeros(u.shape)
     t,n,m,p = u.shape
     uxt = np.zeros((t, n, m, p))
     if len(dxt.shape) == 2:
@@ -255,8 +286,13 @@ def Diff2_3(u, dxt, name=1):
     """
   
     
+    u = _as_float(u)
     if u.shape == dxt.shape:
-        return u/dxt
+        # a function of this coordinate alone
+        return _own_coordinate(u, dxt, order=2)
+    if u.ndim > name and u.shape[name] == 1 and dxt.size > 1:
+        # does not depend on this coordinate
+        return np.zeros(u.shape)
     t,n,m,p = u.shape
     uxt = np.zeros((t, n, m,p))
     dxt = dxt.ravel()
diff --git a/kd/model/discover/task/pde/utils_nn.py b/kd/model/discover/task/pde/utils_nn.py
index bafa9f9..14fe636 100644
--- a/kd/model/discover/task/pde/utils_nn.py
+++ b/kd/model/discover/task/pde/utils_nn.py
@@ -229,7 +229,7 @@ def Laplacian_t(u, x):
     # import pdb;pdb.set_trace()
     for i in range(len(x)-1):
         diff2_ = torch_diff(u, x[i+1], order = 2)
-        diff2+=diff2_
+        diff2 = diff2 + diff2_
     return diff2
     
 
diff --git a/kd/model/discover/task/pde/utils_v1.py b/kd/model/discover/task/pde/utils_v1.py
index c99795a..74c52f6 100644
--- a/kd/model/discover/task/pde/utils_v1.py
+++ b/kd/model/discover/task/pde/utils_v1.py
@@ -1,296 +1,14 @@
-
-import numpy as np
-# from pde_find import *
-from numba import jit,njit
-
-
-def FiniteDiff(u, dx):
-    
-    n = u.size
-    ux = np.zeros(n)
-
-    # for i in range(1, n - 1):
-    ux[1:n-1] = (u[2:n] - u[0:n-2]) / (2 * dx)
-
-    ux[0] = (-3.0 / 2 * u[0] + 2 * u[1] - u[2] / 2) / dx
-    ux[n - 1] = (3.0 / 2 * u[n - 1] - 2 * u[n - 2] + u[n - 3] / 2) / dx
-    return ux
-
-
-def FiniteDiff2(u, dx):
-
-    n = u.size
-    ux = np.zeros(n)
-
-    ux[1:n-1] = (u[2:n] - 2 * u[1:n-1] + u[0:n-2]) / dx ** 2
-
-    ux[0] = (2 * u[0] - 5 * u[1] + 4 * u[2] - u[3]) / dx ** 2
-    ux[n - 1] = (2 * u[n - 1] - 5 * u[n - 2] + 4 * u[n - 3] - u[n - 4]) / dx ** 2
-    return ux
-
-
-
-# @jit(nopython=True)  
-def Diff(u, dxt, dim, name='x'):
-    """
-    Here dx is a scalar, name is a str indicating what it is
-    """
-
-    n, m = u.shape
-    uxt = np.zeros((n, m))
-    
-    if len(dxt.shape) == 2:
-        dxt = dxt[:,0]
-    if name == 'x':
-        dxt = dxt[2]-dxt[1]
-        # for i in range(m):
-        #     uxt[:, i] = FiniteDiff(u[:, i], dxt)
-        uxt[1:n-1,:] = (u[2:n,:] - u[0:n-2,:]) / (2 * dxt)
-
-        uxt[0,:] = (-3.0 / 2 * u[0,:] + 2 * u[1,:] - u[2,:] / 2) / dxt
-        uxt[n - 1,:] = (3.0 / 2 * u[n - 1,:] - 2 * u[n - 2,:] + u[n - 3,:] / 2) / dxt
-    # elif name == 't':
-    #     for i in range(n):
-    #         uxt[i, :] = FiniteDiff(u[i, :], dxt)
-
-    else:
-        assert False
-        NotImplementedError()
-
-    return uxt
-
-# @jit(nopython=True)  
-def Diff2(u, dxt, dim, name='x'):
-    """
-    Here dx is a scalar, name is a str indicating what it is
-    """
-    if len(dxt.shape) == 2:
-        dxt = dxt[:,0]
-    n, m = u.shape
-    uxt = np.zeros((n, m))
-    dxt = dxt[2]-dxt[1]
-    if name == 'x':
-
-        uxt[1:n-1,:] =(u[2:n,:] - 2 * u[1:n-1,:] + u[0:n-2,:]) / dxt ** 2
-
-        uxt[0,:] = (2 * u[0,:] - 5 * u[1,:] + 4 * u[2,:] - u[3,:]) / dxt ** 2
-        uxt[n - 1,:] = (2 * u[n - 1,:] - 5 * u[n - 2,:] + 4 * u[n - 3,:] - u[n - 4,:]) / dxt ** 2
-    else:
-        assert False
-        NotImplementedError()
-
-    return uxt
-
-# @jit(nopython=True)  
-def Diff3(u, dxt, dim, name='x'):
-    """
-    Here dx is a scalar, name is a str indicating what it is
-    """
-
-    n, m = u.shape
-    uxt = np.zeros((n, m))
-
-    if name == 'x':
-        uxt=Diff2(u,dxt,dim,name)
-        uxt = Diff(uxt,dxt, dim, name)
-        # dxt = dxt[2]-dxt[1]
-
-        # for i in range(m):
-        #     uxt[:, i] = FiniteDiff2(u[:, i], dxt)
-        #     uxt[:,i] = FiniteDiff(uxt[:,i],dxt )
-
-    else:
-        assert False
-        NotImplementedError()
-
-    return uxt
-
-# @jit(nopython=True)  
-def Diff4(u, dxt, dim, name='x'):
-    """
-    Here dx is a scalar, name is a str indicating what it is
-    """
-
-    n, m = u.shape
-    uxt = np.zeros((n, m))
-
-    
-    if name == 'x':
-        uxt=Diff2(u,dxt,dim,name)
-        uxt = Diff2(uxt,dxt, dim, name)
-    else:
-        assert False
-        NotImplementedError()
- 
-
-    return uxt
-
-
-
-def Diff_2(u, dxt, name=1):
-    """
-    Here dx is a scalar, name is a str indicating what it is
-    """
-
-    # import pdb;pdb.set_trace()
-    if u.shape == dxt.shape:
-        return u/dxt
-    t,n,m = u.shape
-    uxt = np.zeros((t, n, m))
-    if len(dxt.shape) == 2:
-        dxt = dxt[:,0]
-    dxt = dxt.ravel()
-    # import pdb;pdb.set_trace()
-    if name == 1:
-        dxt = dxt[2]-dxt[1]
-        uxt[:,1:n-1,:] = (u[:,2:n,:]-u[:,:n-2,:])/2/dxt
-        
-        uxt[:,0,:] = (u[:,1,:]-u[:,-1,:])/2/dxt
-        uxt[:,-1,:] = (u[:,0,:]-u[:,-2,:])/2/dxt
-    elif name == 2:
-        dxt = dxt[2]-dxt[1]
-        uxt[:,:,1:m-1] = (u[:,:,2:m]-u[:,:,:m-2])/2/dxt
-        
-        uxt[:,:,0] = (u[:,:,1]-u[:,:,-1])/2/dxt
-        uxt[:,:,-1] = (u[:,:,0]-u[:,:,-2])/2/dxt
-        # uxt[:,:,0] = (-3.0 / 2 * u[:,:,0] + 2 * u[:,:,1] - u[:,:,2] / 2) / dxt
-        # uxt[:,:,n - 1] = (3.0 / 2 * u[:,:,n - 1] - 2 * u[:,:,n - 2] + u[:,:,n - 3] / 2) / dxt
-    else:
-        assert False, 'not supported'     
-
-    return uxt
-
-# @jit(nopython=True)
-def Diff2_2(u, dxt, name=1): 
-    """
-    Here dx is a scalar, name is a str indicating what it is
-    """
-  
-    
-    if u.shape == dxt.shape:
-        return u/dxt
-    t,n,m = u.shape
-    uxt = np.zeros((t, n, m))
-    dxt = dxt.ravel()
-    # try: 
-    if name == 1:
-        dxt = dxt[2]-dxt[1]
-        uxt[:,1:n-1,:]= (u[:,2:n,:] - 2 * u[:,1:n-1,:] + u[:,0:n-2,:]) / dxt ** 2
-        uxt[:,0,:] = (u[:,1,:]+u[:,-1,:]-2*u[:,0,:])/dxt ** 2
-        uxt[:,-1,:] = (u[:,0,:]+u[:,-2,:]-2*u[:,-1,:])/dxt ** 2
-        # uxt[:,0,:] = (2 * u[:,0,:] - 5 * u[:,1,:] + 4 * u[:,2,:] - u[:,3,:]) / dxt ** 2
-        # uxt[:,n - 1,:] = (2 * u[:,n - 1,:] - 5 * u[:,n - 2,:] + 4 * u[:,n - 3,:] - u[:,n - 4,:]) / dxt ** 2
-    elif name == 2:
-        dxt = dxt[2]-dxt[1]
-        uxt[:,:,1:m-1]= (u[:,:,2:m] - 2 * u[:,:,1:m-1] + u[:,:,0:m-2]) / dxt ** 2
-        uxt[:,:,0] = (u[:,:,1]+u[:,:,-1]-2*u[:,:,0])/dxt ** 2
-        uxt[:,:,-1] = (u[:,:,0]+u[:,:,-2]-2*u[:,:,-1])/dxt ** 2  
-        # uxt[:,:,0] = (2 * u[:,:,0] - 5 * u[:,:,1] + 4 * u[:,:,2] - u[:,:,3]) / dxt ** 2
-        # uxt[:,:,n - 1] = (2 * u[:,:,n - 1] - 5 * u[:,:,n - 2] + 4 * u[:,:,n - 3] - u[:,:,n - 4]) / dxt ** 2
-        
-    else:
-        NotImplementedError()
-# except:
-    #     import pdb;pdb.set_trace()
-
-    return uxt
-
-@jit(nopython=True)
-def Laplace(u,x):
-    x1,x2 = x
-    uxt = Diff2_2(u,x1, name = 1)
-    uxt += Diff2_2(u,x2, name = 2)
-    return uxt
-
-
-def Diff_3(u, dxt, name=1):
-    """
-    Here dx is a scalar, name is a str indicating what it is
-    """
-
-    # import pdb;pdb.set_trace()
-    if u.shape == dxt.shape:
-        return u/dxt
-    t,n,m,p = u.shape
-    uxt = np.zeros((t, n, m, p))
-    if len(dxt.shape) == 2:
-        import pdb;pdb.set_trace()
-        dxt = dxt[:,0]
-    dxt = dxt.ravel()
-    # import pdb;pdb.set_trace()
-    dxt = dxt[2]-dxt[1]
-    if name == 1:
-        uxt[:,1:n-1,:,:] = (u[:,2:n,:,:]-u[:,:n-2,:,:])/2/dxt
-        
-        # uxt[:,0,:,:] = (u[:,1,:,:]-u[:,-1,:,:])/2/dxt
-        # uxt[:,-1,:,:] = (u[:,0,:,:]-u[:,-2,:,:])/2/dxt
-        uxt[:,0,:,:] = (-3.0 / 2 * u[:,0,:,:] + 2 * u[:,1,:,:] - u[:,2,:,:] / 2) / dxt
-        uxt[:,n - 1,:,:] = (3.0 / 2 * u[:,n - 1,:,:] - 2 * u[:,n - 2,:,:] + u[:,n - 3,:,:] / 2) / dxt
-    elif name == 2:
-        
-        uxt[:,:,1:m-1,:] = (u[:,:,2:m,:]-u[:,:,:m-2,:])/2/dxt
-        
-        # uxt[:,:,0,:] = (u[:,:,1,:]-u[:,:,-1,:])/2/dxt
-        # uxt[:,:,-1,:] = (u[:,:,0,:]-u[:,:,-2,:])/2/dxt
-        uxt[:,:,0,:] = (-3.0 / 2 * u[:,:,0,:] + 2 * u[:,:,1,:] - u[:,:,2,:] / 2) / dxt
-        uxt[:,:,m- 1,:] = (3.0 / 2 * u[:,:,m - 1,:] - 2 * u[:,:,m - 2,:] + u[:,:,m - 3,:] / 2) / dxt
-    elif name == 3:
-        uxt[:,:,:,1:p-1] = (u[:,:,:,2:p]-u[:,:,:,:p-2])/2/dxt
-        uxt[:,:,:,0] = (-3.0 / 2 * u[:,:,:,0] + 2 * u[:,:,:,1] - u[:,:,:,2] / 2) / dxt
-        uxt[:,:,:,p - 1] = (3.0 / 2 * u[:,:,:,p - 1] - 2 * u[:,:,:,p - 2] + u[:,:,:,p - 3] / 2) / dxt
-    else:
-        assert False, 'not supported'     
-
-    return uxt
-
-# @jit(nopython=True)
-def Diff2_3(u, dxt, name=1): 
-    """
-    Here dx is a scalar, name is a str indicating what it is
-    """
-  
-    
-    if u.shape == dxt.shape:
-        return u/dxt
-    t,n,m,p = u.shape
-    uxt = np.zeros((t, n, m,p))
-    dxt = dxt.ravel()
-    # try: 
-    dxt = dxt[2]-dxt[1]
-    if name == 1:
-        
-        uxt[:,1:n-1,:,:]= (u[:,2:n,:,:] - 2 * u[:,1:n-1,:,:] + u[:,0:n-2,:,:]) / dxt ** 2
-        # uxt[:,0,:,:] = (u[:,1,:,:]+u[:,-1,:,:]-2*u[:,0,:,:])/dxt ** 2
-        # uxt[:,-1,:,:] = (u[:,0,:,:]+u[:,-2,:,:]-2*u[:,-1,:,:])/dxt ** 2
-        uxt[:,0,:,:] = (2 * u[:,0,:,:] - 5 * u[:,1,:,:] + 4 * u[:,2,:,:] - u[:,3,:,:]) / dxt ** 2
-        uxt[:,n - 1,:,:] = (2 * u[:,n - 1,:,:] - 5 * u[:,n - 2,:,:] + 4 * u[:,n - 3,:,:] - u[:,n - 4,:,:]) / dxt ** 2
-    elif name == 2:
-
-        uxt[:,:,1:m-1,:]= (u[:,:,2:m,:] - 2 * u[:,:,1:m-1,:] + u[:,:,0:m-2,:]) / dxt ** 2
-        # uxt[:,:,0,:] = (u[:,:,1,:]+u[:,:,-1,:]-2*u[:,:,0,:,:])/dxt ** 2
-        # uxt[:,:,-1,:] = (u[:,:,0,:]+u[:,:,-2,:]-2*u[:,:,-1,:])/dxt ** 2  
-        uxt[:,:,0,:] = (2 * u[:,:,0,:] - 5 * u[:,:,1,:] + 4 * u[:,:,2,:] - u[:,:,3,:]) / dxt ** 2
-        uxt[:,:,m - 1,:] = (2 * u[:,:,m - 1,:] - 5 * u[:,:,m - 2,:] + 4 * u[:,:,m - 3,:] - u[:,:,m - 4,:]) / dxt ** 2
-    elif name == 3:
-        uxt[:,:,:,1:m-1]= (u[:,:,:,2:m] - 2 * u[:,:,:,1:m-1] + u[:,:,:,0:m-2]) / dxt ** 2
-        # uxt[:,:,:,0] = (u[:,:,:,1]+u[:,:,:,-1]-2*u[:,:,:,0])/dxt ** 2
-        # uxt[:,:,-1] = (u[:,:,0]+u[:,:,-2]-2*u[:,:,-1])/dxt ** 2  
-        uxt[:,:,0] = (2 * u[:,:,0] - 5 * u[:,:,1] + 4 * u[:,:,2] - u[:,:,3]) / dxt ** 2
-        uxt[:,:,:,p - 1] = (2 * u[:,:,:,p - 1] - 5 * u[:,:,:,p - 2] + 4 * u[:,:,:,p - 3] - u[:,:,:,p- 4]) / dxt ** 2       
-    else:
-        NotImplementedError()
-# except:
-    #     import pdb;pdb.set_trace()
-
-    return uxt
-
-if  __name__ ==  "__main__":
-    import time
-    st = time.time()
-    u = np.random.rand(500,200)
-    x = np.random.rand(500,1)
-    su = np.sum(Diff3(u,x,0))
-    # import utils
-    # su1 = np.sum(utils.Diff3(u,x))
-    print(f"time : {time.time()-st}")
-    print(su)
+"""Earlier name of the finite-difference routines, see utils_fd."""
+from .utils_fd import (
+    FiniteDiff,
+    FiniteDiff2,
+    Diff,
+    Diff2,
+    Diff3,
+    Diff4,
+    Diff_2,
+    Diff2_2,
+    Laplace,
+    Diff_3,
+    Diff2_3,
+)
diff --git a/kd/model/sga/sgapde/PDE_find.py b/kd/model/sga/sgapde/PDE_find.py
index 14c0843..d694d14 100644
--- a/kd/model/sga/sgapde/PDE_find.py
+++ b/kd/model/sga/sgapde/PDE_find.py
@@ -11,8 +11,14 @@ import torch.optim as optim
 from sklearn.metrics import mean_squared_error
 
 
+def _as_float(u):
+    # Differences of (unsigned) integers would wrap around.
+    return u.astype(float) if u.dtype.kind in 'uib' else u
+
+
 def FiniteDiff(u, dx):
 
+    u = _as_float(u)
     n = u.size
     # Fail fast on short axes to avoid out-of-bounds access in the stencil.
     if n < 3:
@@ -28,6 +34,7 @@ def FiniteDiff(u, dx):
 
 
 def FiniteDiff2(u, dx):
+    u = _as_float(u)
     n = u.size
     if n < 4:
         raise ValueError(f"FiniteDiff2 requires at least 4 points; got {n}.")
diff --git a/kd/utils/solver.py b/kd/utils/solver.py
index d94818d..7440b6e 100644
--- a/kd/utils/solver.py
+++ b/kd/utils/solver.py
@@ -8,11 +8,11 @@ class FiniteDifferenceOperator:
         :param dx: Grid spacing.
         :param dim: Spatial dimension.
         """
-        self.u = u
+        self.u = u.astype(float) if u.dtype.kind in 'uib' else u
         self.dx = dx
         self.dim = dim
         self.n, self.m = u.shape
-        self.ux = np.zeros_like(u)
+        self.ux = np.zeros_like(self.u)
 
     def _finite_diff_1st(self):
         """
diff --git a/kd/utils/utils_fd.py b/kd/utils/utils_fd.py
index c57d737..de20f47 100644
--- a/kd/utils/utils_fd.py
+++ b/kd/utils/utils_fd.py
@@ -46,6 +46,11 @@ def FiniteDiff(u, dx, order=1):
         >>> dx = x[1] - x[0]
         >>> dudx = FiniteDiff(u, dx)  # Should approximate 2*x
     """
+    if order not in (1, 2, 3, 4):
+        raise ValueError(f"Unsupported derivative order: {order}")
+    u = np.asarray(u)
+    if u.dtype.kind in 'uib':
+        u = u.astype(float)  # differences of (unsigned) integers would wrap around
     n = u.size
     ux = np.zeros(n)
     
@@ -61,7 +66,7 @@ def FiniteDiff(u, dx, order=1):
         ux[n-1] = (2*u[n-1] - 5*u[n-2] + 4*u[n-3] - u[n-4]) / (dx**2)
     elif order == 3:
         for i in range(2, n-2):
-            ux[i] = (-u[i+2] + 2*u[i+1] - 2*u[i-1] + u[i-2]) / (2*dx**3)
+            ux[i] = (u[i+2] - 2*u[i+1] + 2*u[i-1] - u[i-2]) / (2*dx**3)
         ux[0:2] = 0
         ux[n-2:] = 0
     elif order == 4:
-- 
2.43.0


From a2963eea6ae9ae5526a9dbae75d218c1fd6344ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 47/69] fix: evaluation: coordinates on their own axis,
 non-finite results are invalid, refused programs score nothing finite,
 operator table

---
 kd/model/discover/execute.py           | 27 ++++++++++++++++++++------
 kd/model/discover/functions.py         | 10 ++++++----
 kd/model/discover/library.py           |  2 +-
 kd/model/discover/stridge.py           | 24 ++++++++++++++++-------
 kd/model/discover/task/pde/pde.py      | 17 ++++++++++++----
 kd/model/discover/task/pde/pde_pinn.py |  4 ++++
 kd/model/discover/task/regression.py   |  3 +++
 7 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/kd/model/discover/execute.py b/kd/model/discover/execute.py
index 6d77b0d..ae399fb 100644
--- a/kd/model/discover/execute.py
+++ b/kd/model/discover/execute.py
@@ -1,10 +1,21 @@
 
 import array
+import numpy as np
 import torch.autograd as autograd
 import torch
 """
 evaluate PDE traversal through predefined operators and operands.
 """
+def on_own_axis(x, u, axis):
+    """
+    A coordinate vector varies along its own axis of multi-dimensional data (time is the first axis).
+    """
+    if len(u) > 0 and np.ndim(u[0]) > 2 and np.size(x) == u[0].shape[axis]:
+        shape = [1] * np.ndim(u[0])
+        shape[axis] = -1
+        x = np.reshape(x, shape)
+    return x
+
 def python_execute(traversal, u, x):
     """
     evaulate the preorder traversal with provided data based on numpy. Modified from dso.
@@ -23,7 +34,7 @@ def python_execute(traversal, u, x):
             if token.input_var is not None:
                 # import pdb;pdb.set_trace()
 
-                intermediate_result =  x[token.input_var]
+                intermediate_result =  on_own_axis(x[token.input_var], u, token.input_var+1)
                 dim_flag = token.input_var+1
             elif token.param_var is not None:
                 intermediate_result = token._param_data_ref
@@ -35,7 +46,7 @@ def python_execute(traversal, u, x):
                     if 'diff' in token.name or 'Diff' in token.name:
                         intermediate_result = token(*[*terminals,dim_flag])
                     elif token.name in ('lap', 'lap_3', 'lap_t'):
-                        intermediate_result = token(*[*terminals, x])
+                        intermediate_result = token(*[*terminals, [on_own_axis(x[j], u, j+1) for j in range(len(x))]])
                     else:
                         intermediate_result = token(*terminals)
                 except Exception as e:
@@ -87,10 +98,14 @@ def python_execute_torch(traversal, u, x):
                         # print(e)
                         return None
                       
-                elif 'lap' in token.name:
-                    intermediate_result = token(*[*terminals, x])
-                else:  
-                    intermediate_result = token(*terminals)
+                else:
+                    try:
+                        if 'lap' in token.name:
+                            intermediate_result = token(*[*terminals, x])
+                        else:
+                            intermediate_result = token(*terminals)
+                    except Exception as e:
+                        return None
             try:       
                 if torch.isnan(intermediate_result).all() or torch.isinf(intermediate_result).all():
                     # print("nan or inf")
diff --git a/kd/model/discover/functions.py b/kd/model/discover/functions.py
index 8c6e57e..9a077ca 100644
--- a/kd/model/discover/functions.py
+++ b/kd/model/discover/functions.py
@@ -35,8 +35,10 @@ def sigmoid(x1):
     return 1 / (1 + np.exp(-x1))
 
 def harmonic(x1):
-    if all(val.is_integer() for val in x1):
-        return np.array([sum(Fraction(1, d) for d in range(1, int(val)+1)) for val in x1], dtype=np.float32)
+    x1 = np.asarray(x1, dtype=float)
+    # the series below is as accurate as the sum for large numbers
+    if np.all((np.floor(x1) == x1) & (x1 < 1000)):
+        return np.array([sum(Fraction(1, d) for d in range(1, int(val)+1)) for val in x1.ravel()], dtype=np.float32).reshape(x1.shape)
     else:
         return GAMMA + np.log(x1) + 0.5/x1 - 1./(12*x1**2) + 1./(120*x1**4)
     
@@ -110,8 +112,8 @@ unprotected_ops = [
     Token(np.square, "n2", arity=1, complexity=2),
     Token(np.negative, "neg", arity=1, complexity=1),
     Token(np.abs, "abs", arity=1, complexity=2),
-    Token(np.maximum, "max", arity=1, complexity=4),
-    Token(np.minimum, "min", arity=1, complexity=4),
+    Token(np.maximum, "max", arity=2, complexity=4),
+    Token(np.minimum, "min", arity=2, complexity=4),
     Token(np.tanh, "tanh", arity=1, complexity=4),
     Token(np.reciprocal, "inv", arity=1, complexity=2),
 
diff --git a/kd/model/discover/library.py b/kd/model/discover/library.py
index c4ff158..ac026cf 100644
--- a/kd/model/discover/library.py
+++ b/kd/model/discover/library.py
@@ -134,7 +134,7 @@ class Library():
         self.names = [t.name for t in tokens]
         self.name_arites = { t.name : t.arity for t in tokens}
 
-        self.np_names = [t.name for t in tokens if t.name not in ['const'] and ('u' not in t.name or t.name=='mul') and t.input_var is None and t.param_var is None]
+        self.np_names = [t.name for t in tokens if t.arity > 0]
         #sub child of operator
         self.arities = np.array([t.arity for t in tokens], dtype=np.int32)
 
diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 8aed6d3..92880ed 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -48,21 +48,27 @@ def unsafe_execute(traversal, u, x):
     and the appropriate nan/inf value is returned. It's up to the task's
     reward function to decide how to handle nans/infs."""
 
-    with np.errstate(all='log'):
+    # The handler is set here: any other code may have replaced the global one
+    invalid_log.update() # Forget what happened outside this call
+    with np.errstate(all='log', call=invalid_log):
         y = python_execute(traversal, u,x)
-        invalid, error_node, error_type = invalid_log.update()
-        return y, invalid, error_node, error_type
+        invalid, error_type, error_node = invalid_log.update()
+    if not invalid and y is not None and not np.all(np.isfinite(y)):
+        invalid, error_type, error_node = True, 'non_finite', 'result'
+    return y, invalid, error_node, error_type
     
 def unsafe_execute_torch(traversal, u, x):
     
-    with np.errstate(all='log'):
+    with np.errstate(all='ignore'):
         y = python_execute_torch(traversal, u,x)
         if y is None:
-            invalid_log.write("bad_diff bad_diff bad_diff")
             return 0, True,'bad_diff','bad_diff'
         
         error_node,error_type=None,None
         invalid=False
+        if not torch.isfinite(y).all():
+            error_node,error_type=  'result', 'non_finite'
+            invalid=True
         return y, invalid, error_node, error_type
 
 
@@ -252,7 +258,8 @@ class Regulations(object):
         omit_list = []
         error_list= []
         for i, traversal in enumerate(terms_token):
-            if ('diff' in repr(traversal) or 'Diff' in repr(traversal)) and ', u' not in repr(traversal):
+            has_state = any(t.state_var is not None for t in traversal)
+            if ('diff' in repr(traversal) or 'Diff' in repr(traversal)) and not has_state:
                 error_list.append('no_u')  
                 omit_list.append(i)
 
@@ -260,7 +267,7 @@ class Regulations(object):
                 error_list.append('depth_limit')
                 omit_list.append(i)
             # import pdb;pdb.set_trace()
-            if 'u' not in repr(traversal): #in ['x1', 'x2','x3']:
+            if not has_state: #in ['x1', 'x2','x3']:
                 error_list.append('violate physical constraint')
                 omit_list.append(i)
         return omit_list,error_list
@@ -652,6 +659,9 @@ class STRidge(object):
                     
         if invalid:
             return 0,[0],invalid,error_node,error_type,None
+
+        if result is None:
+            return 0,[0],True,None,"execute_returned_none",None
         
         if torch.is_tensor(result):
             result = tensor2np(result)
diff --git a/kd/model/discover/task/pde/pde.py b/kd/model/discover/task/pde/pde.py
index 9d8d40c..295ae30 100644
--- a/kd/model/discover/task/pde/pde.py
+++ b/kd/model/discover/task/pde/pde.py
@@ -166,6 +166,10 @@ class PDETask(HierarchicalTask):
             return self.invalid_reward, [0], None, None # 也注意修改
         
         r = self.metric(self.ut, y_hat,n)
+        if not np.isfinite(r):
+            # e.g. the correlation with a constant
+            p.invalid, p.error_node, p.error_type = True, 'metric', 'non_finite'
+            return self.invalid_reward, [0], None, None
 
         return r, w, y_hat, y_right # 多拿俩返回值
 
@@ -175,6 +179,8 @@ class PDETask(HierarchicalTask):
         task function utilized to calculate mse for coeffcients
         """
         y_hat, y_right, w = p.execute(self.u, self.x, self.ut)
+        if p.invalid:
+            return np.inf
         diffs = y_hat-self.ut
         loss = (np.mean(np.square(diffs))) 
         return loss
@@ -281,7 +287,7 @@ def make_pde_metric(name, *args):
     # ut = 
     all_metrics = {
 
-        "inv_nrmse" :    (lambda y, y_hat : 1/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
+        "inv_nrmse" :    (lambda y, y_hat,n : 1/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
                         1),
 
         "pde_reward":  (lambda y, y_hat,n : (1-args[0]*n)/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
@@ -289,7 +295,8 @@ def make_pde_metric(name, *args):
 
         "correlation": (lambda y,y_hat,n: pearsonr(y.ravel(), y_hat.ravel())[0],
                         1),
-        "R2":(lambda y, y_hat,n: 1 - ((y_hat - y)**2).sum() / ((y - y.mean())**2).sum() )
+        "R2":(lambda y, y_hat,n: 1 - ((y_hat - y)**2).sum() / ((y - y.mean())**2).sum(),
+                        1)
 
       
     }
@@ -305,7 +312,8 @@ def make_pde_metric(name, *args):
        
         "inv_nrmse" : 0.0, #1/(1 + args[0]),
         'pde_reward':0.0,
-        'correlation':0.0
+        'correlation':0.0,
+        'R2':0.0
 
     }
     invalid_reward = all_invalid_rewards[name]
@@ -313,7 +321,8 @@ def make_pde_metric(name, *args):
     all_max_rewards = {
         "inv_nrmse" : 1.0,
         "pde_reward":1.0,
-        'correlation':1.0
+        'correlation':1.0,
+        'R2':1.0
 
     }
     max_reward = all_max_rewards[name]
diff --git a/kd/model/discover/task/pde/pde_pinn.py b/kd/model/discover/task/pde/pde_pinn.py
index c64328a..e86d3f3 100644
--- a/kd/model/discover/task/pde/pde_pinn.py
+++ b/kd/model/discover/task/pde/pde_pinn.py
@@ -156,6 +156,10 @@ class PDEPINNTask(PDETask):
 
         # Compute metric
         r = self.metric(self.ut, y_hat,n)
+        if not np.isfinite(r):
+            # e.g. the correlation with a constant
+            p.invalid, p.error_node, p.error_type = True, 'metric', 'non_finite'
+            return self.invalid_reward, [0], None, None
         return r, w, y_hat, y_right
 
     def evaluate(self, p):
diff --git a/kd/model/discover/task/regression.py b/kd/model/discover/task/regression.py
index 0817fe6..c2cf085 100644
--- a/kd/model/discover/task/regression.py
+++ b/kd/model/discover/task/regression.py
@@ -88,6 +88,9 @@ class RegressionTask(HierarchicalTask):
         if p.invalid or y_hat is None:
             return self.invalid_reward, [0.0], None, None
         reward = self.metric(self.y, y_hat, n_tokens=len(p.traversal))
+        if not np.isfinite(reward):
+            p.invalid, p.error_node, p.error_type = True, "metric", "non_finite"
+            return self.invalid_reward, [0.0], None, None
         return reward, weights, y_hat, None
 
     def mse_function(self, p) -> float:
-- 
2.43.0


From a048be75c3a564622245c22c407f2e2b477f528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 48/69] fix: searcher: the best expression is the best valid
 one whatever the selection drops; SPR keeps the reported best

---
 kd/model/discover/searcher.py | 71 +++++++++++++++++++----------------
 kd/model/kd_discover.py       |  8 +++-
 2 files changed, 44 insertions(+), 35 deletions(-)

diff --git a/kd/model/discover/searcher.py b/kd/model/discover/searcher.py
index a1ebc84..339f1f3 100644
--- a/kd/model/discover/searcher.py
+++ b/kd/model/discover/searcher.py
@@ -24,7 +24,7 @@ def quantile_select(actions, obs, priors,programs, r, epsilon):
     Risk-seeking policy gradient: select epsilon quantile of training samples according to rewards
     """
     # delete nan
-    r[np.isnan(r)]=0.
+    r           = np.where(np.isnan(r), 0., r)
     r_train = r
 
     # Vanilla Policy Gradient (epsilon = null)
@@ -43,11 +43,8 @@ def quantile_select(actions, obs, priors,programs, r, epsilon):
     s_full = s
     # quantile = np.min(r)
     valid_full1 = invalid ==False
-    valid_full2 = r_full > 0
-    valid_full = np.logical_and(valid_full1, valid_full2)
-    r_full_valid = r_full[valid_full]
-    r_full = r_full[valid_full2]
-    l_full= l_full[valid_full]
+    r_full_valid = r_full[valid_full1]
+    l_full= l_full[valid_full1]
     
 
     quantile = np.quantile(r, 1 - epsilon, method="higher")
@@ -117,7 +114,6 @@ class Searcher:
         self.batch_size = self.args['n_samples_per_batch']
         self.stability_selection = self.args['stability_selection']
         self.r_best= -np.inf
-        self.prev_r_best = None
         self.best_p = None
         self.pq = make_queue(priority=True, capacity=self.controller.pqt_k)
         self.r_history = []
@@ -135,6 +131,28 @@ class Searcher:
     def best_reward(self):
         return self.r_best
     
+    def update_best(self, programs, r):
+        """
+        Keep the best of all valid programs evaluated so far. An invalid one only stands in as long as there is none.
+
+        Returns
+        -------
+        True if the best program has changed.
+        """
+        new_best = False
+        for p, r_p in zip(programs, r):
+            if self.best_p is None:
+                better = True
+            elif bool(p.invalid) != bool(self.best_p.invalid):
+                better = bool(self.best_p.invalid)
+            else:
+                better = r_p > self.r_best
+            if better and np.isfinite(r_p):
+                self.best_p = p
+                self.r_best = r_p
+                new_best = True
+        return new_best
+
     def search_one_step(self,epoch = 0, verbose = False):
         # Sample batch of Programs from the Controller
         # Shape of actions: (batch_size, max_length)
@@ -150,22 +168,13 @@ class Searcher:
       
         # Compute rewards (or retrieve cached rewards)
         r = np.array([p.r_ridge for p in programs])
-        reserved = quantile_select(actions, obs, priors, programs, r.copy(), self.args['epsilon'])
+        # Whatever the quantile filter drops below: an invalid program may score more than the valid ones.
+        new_r_best = self.update_best(programs, r)
+        reserved = quantile_select(actions, obs, priors, programs, r, self.args['epsilon'])
         if reserved is None:
-            # Even when no valid programs pass the quantile filter, keep the
-            # best-reward program so that self.best_p is not None after search.
-            if programs:
-                r_safe = np.where(np.isfinite(r), r, -np.inf)
-                best_idx = int(np.argmax(r_safe))
-                if np.isfinite(r[best_idx]) and (self.best_p is None or r[best_idx] > self.r_best):
-                    self.best_p = programs[best_idx]
-                    self.r_best = r[best_idx]
             return
         programs, r, r_train, r_full_valid, p_train, priors,on_policy,obs, actions, baseline_r = reserved
         
-        r_max = np.max(r_full_valid)
-        self.r_best = max(r_max, self.r_best)
-        
         if self.gp_aggregator is not None:   
             p_agg, action_agg, ob_agg, prior_agg = self.gp_aggregator( p_train, actions.shape[1])
 
@@ -181,8 +190,7 @@ class Searcher:
                 r_full_valid = np.append(r_full_valid, [p_agg[i].r_ridge for i in range(len(p_agg))])
                 p_train = p_train + p_agg
                 on_policy = np.append(on_policy, [False]*len(p_agg))
-                r_max = np.max(r)
-                self.r_best = max(r_max, self.r_best)
+                new_r_best = self.update_best(p_agg, r[-len(p_agg):]) or new_r_best
         
         self.r_history.append(r_full_valid)
         self.r_train.append(r_train)
@@ -222,17 +230,9 @@ class Searcher:
         #                   s_history, b_train, epoch_walltime, controller_programs)
 
 
-        # Update new best expression
-        new_r_best = False
-
-        if self.prev_r_best is None or r_max > self.prev_r_best:
-            new_r_best = True
-            self.best_p = cur_best_program
-            
-        self.prev_r_best = self.r_best
         # Print new best expression
         if verbose and new_r_best:
-            print("Training epoch {}/{}, current best R: {:.4f}, cost time: {:.2f}".format( epoch + 1, self.n_iterations, self.prev_r_best,epoch_walltime ))
+            print("Training epoch {}/{}, current best R: {:.4f}, cost time: {:.2f}".format( epoch + 1, self.n_iterations, self.r_best,epoch_walltime ))
             print("\n\t** New best")
             self.best_p.print_stats()
 
@@ -256,7 +256,7 @@ class Searcher:
             self.n_iterations=n_epochs
         
         # whether keep priority queue
-        if not keep_history and len(self.pq)>0:
+        if not keep_history and self.total_epoch>0:
             self.set_up()
             
         pbar = tqdm(range(n_epochs), desc='Progress', ncols=100)
@@ -269,7 +269,7 @@ class Searcher:
         for i, item in enumerate(self.pq.iter_in_order()):
             # print("\nTop {} result:".format(i))
             # p.print_stats()
-            p = Program.cache[item[0]]
+            p = self.queued_program(item)
             final_p_list.append(p)
 
         if self.stability_selection > 0:
@@ -326,10 +326,15 @@ class Searcher:
         print("="*50)
         return result 
 
+    def queued_program(self, item):
+        """The program of a queue item, also when the cache has been cleared since."""
+        p = Program.cache.get(item[0])
+        return p if p is not None else from_tokens(np.array(item[1].actions))
+
     def print_pq(self):
         for i, item in enumerate(self.pq.iter_in_order()):
             print("\nTop {} result:".format(i))
-            p = Program.cache[item[0]]
+            p = self.queued_program(item)
             p.print_stats()
         
     def plot(self,fig_type, **kwargs):
diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index f85b67e..c8e3837 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -690,7 +690,9 @@ class KD_Discover_SPR(KD_Discover):
                 new_best_p = []
                 last_best_p = [from_tokens(best_tokens[t]) for t in range(len(results))]
                 for j in range(len(results)):
-                    if last_best_p[j].r_ridge > best_p[j].r_ridge:
+                    last_r, r = last_best_p[j].r_ridge, best_p[j].r_ridge
+                    # An invalid program is never better than a valid one.
+                    if (not last_best_p[j].invalid, last_r) > (not best_p[j].invalid, r):
                         new_best_p.append(last_best_p[j])
                     else:
                         new_best_p.append(best_p[j])
@@ -708,7 +710,9 @@ class KD_Discover_SPR(KD_Discover):
 
         print(f"The No.{iter_num} pde discovery process")
         self.reset_up(reset_controller=False)    
-        return self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)
+        result = self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)
+        self.best_p = [result['program']]
+        return result
     
     def pinn_train(self, best_p, count, coef=0.1, local_sample=False, last=False):
         """Train PINN with discovered equation constraint.
-- 
2.43.0


From 0ba2db0fef9ab34aa340c1ac4efdbed280cc1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:50 +0000
Subject: [PATCH 49/69] fix: sparse regression: zero columns, coefficients at
 the tolerance, single kept column, lasso; non-finite coefficients are invalid

---
 kd/model/discover/ga_utils.py   |  7 ++++---
 kd/model/discover/stridge.py    |  2 +-
 kd/model/sga/sgapde/PDE_find.py | 15 +++++++++------
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/kd/model/discover/ga_utils.py b/kd/model/discover/ga_utils.py
index e61622d..f08a52f 100644
--- a/kd/model/discover/ga_utils.py
+++ b/kd/model/discover/ga_utils.py
@@ -95,7 +95,8 @@ def STRidge(X0, y, lam, maxit, tol, normalize=0, print_results=False):
     if normalize != 0:
         Mreg = np.zeros((d, 1))
         for i in range(0, d):
-            Mreg[i] = 1.0 / (np.linalg.norm(X0[:, i], normalize))
+            # a zero column stays a zero column
+            Mreg[i] = 1.0 / (np.linalg.norm(X0[:, i], normalize) or 1.0)
             X[:, i] = Mreg[i] * X0[:, i]
     else:
         X = X0
@@ -105,7 +106,7 @@ def STRidge(X0, y, lam, maxit, tol, normalize=0, print_results=False):
     else:
         w = np.linalg.lstsq(X, y)[0]
     num_relevant = d
-    biginds = np.where(abs(w) > tol)[0]
+    biginds = np.where(abs(w) >= tol)[0]
     # Threshold and continue
     for j in range(maxit):
         # Figure out which items to cut out
@@ -130,7 +131,7 @@ def STRidge(X0, y, lam, maxit, tol, normalize=0, print_results=False):
         else:
             w[biginds] = np.linalg.lstsq(X[:, biginds], y)[0]
     # Now that we have the sparsity pattern, use standard least squares to get w
-    if biginds != []: 
+    if len(biginds) > 0: 
         w[biginds] = np.linalg.lstsq(X[:, biginds], y)[0]
     if normalize != 0:
         return np.multiply(Mreg, w)
diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 92880ed..d120922 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -575,7 +575,7 @@ class STRidge(object):
                     w_best = np.linalg.lstsq(rhs, lhs)[0]  
                     continue
                 return 0, [0], True,"small_coe", 'small_coe',None
-            if  np.abs(w_best[i])>1e4:
+            if  not np.abs(w_best[i])<=1e4:
                 return 0, [0], True,"large_coe", 'large_coe',None
             
         y_hat = rhs.dot(w_best)
diff --git a/kd/model/sga/sgapde/PDE_find.py b/kd/model/sga/sgapde/PDE_find.py
index d694d14..9f0873f 100644
--- a/kd/model/sga/sgapde/PDE_find.py
+++ b/kd/model/sga/sgapde/PDE_find.py
@@ -154,6 +154,7 @@ def Train(R, Ut, lam, d_tol, AIC_ratio=1, maxit=10, STR_iters=10, l0_penalty=1,
     elif sparse == 'Lasso':
         w = Lasso(R, Ut, lam, w=np.array([0]), maxit=maxit*10, normalize=normalize)
         # err = np.linalg.norm(Ut - R.dot(w), 2) + l0_penalty * np.count_nonzero(w)
+        w_best = w
         data_err_best = np.linalg.norm(Ut - R.dot(w), 2)
         mse_best = np.mean((TrainY - TrainR.dot(w)) ** 2)
         aic_best = AIC(w[:, 0], mse_best)
@@ -173,7 +174,8 @@ def STRidge(X0, y, lam, maxit, tol, normalize=0, print_results=False):
     if normalize != 0:
         Mreg = np.zeros((d, 1))
         for i in range(0, d):
-            Mreg[i] = 1.0 / (np.linalg.norm(X0[:, i], normalize))
+            # a zero column stays a zero column
+            Mreg[i] = 1.0 / (np.linalg.norm(X0[:, i], normalize) or 1.0)
             X[:, i] = Mreg[i] * X0[:, i]
     else:
         X = X0
@@ -183,7 +185,7 @@ def STRidge(X0, y, lam, maxit, tol, normalize=0, print_results=False):
     else:
         w = np.linalg.lstsq(X, y)[0]
     num_relevant = d
-    biginds = np.where(abs(w) > tol)[0]
+    biginds = np.where(abs(w) >= tol)[0]
     # Threshold and continue
     for j in range(maxit):
         # Figure out which items to cut out
@@ -227,14 +229,15 @@ def Lasso(X0, Y, lam, w=np.array([0]), maxit=100, normalize=2):
     X = np.zeros((n, d))
     Y = Y.reshape(n, 1)
     # Create w if none is given
-    if w.size != d:
+    if w.shape != (d, 1):
         w = np.zeros((d, 1))
     w_old = np.zeros((d, 1))
     # First normalize data
     if normalize != 0:
         Mreg = np.zeros((d, 1))
         for i in range(0, d):
-            Mreg[i] = 1.0 / (np.linalg.norm(X0[:, i], normalize))
+            # a zero column stays a zero column
+            Mreg[i] = 1.0 / (np.linalg.norm(X0[:, i], normalize) or 1.0)
             X[:, i] = Mreg[i] * X0[:, i]
     else:
         X = X0
@@ -244,10 +247,10 @@ def Lasso(X0, Y, lam, w=np.array([0]), maxit=100, normalize=2):
     for iters in range(0, maxit):
         # Update w
         z = w + iters / float(iters + 1) * (w - w_old)
-        w_old = w
+        w_old = w.copy()
         z = z - X.T.dot(X.dot(z) - Y) / L
         for j in range(d):
-            w[j] = np.multiply(np.sign(z[j]), np.max([abs(z[j]) - lam / L, 0]))
+            w[j] = np.multiply(np.sign(z[j]), np.maximum(abs(z[j]) - lam / L, 0))
 
         # Could put in some sort of break condition based on convergence here.
     # Now that we have the sparsity pattern, used least squares.
-- 
2.43.0


From e595861f11a77954a536f2ab395399d92b478712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:23 +0000
Subject: [PATCH 50/69] fix: job client, runner and web app: missing files,
 absent job ids, stale results, failed jobs, transposed uploads, model names

---
 app.py       | 36 +++++++++++++++++++++++++-----------
 kd/job.py    | 34 ++++++++++++++++++++++------------
 kd/runner.py | 10 ++++++++--
 3 files changed, 55 insertions(+), 25 deletions(-)

diff --git a/app.py b/app.py
index 748af2a..0f43d7d 100644
--- a/app.py
+++ b/app.py
@@ -51,8 +51,8 @@ def _is_bohrium_env(request):
 MODEL_KEYS = {
     "KD_SGA": "sga",
     "KD_DLGA": "dlga",
-    "KD_DSCV": "dscv",
-    "KD_DSCV_SPR": "dscv_spr",
+    "KD_DSCV": "discover",
+    "KD_DSCV_SPR": "discover_spr",
     "KD_EqGPT": "eqgpt",
 }
 
@@ -161,9 +161,9 @@ def _get_model_capabilities(model):
     if model is None:
         return []
     caps = list(list_capabilities(model))
-    # spr_* intents only work for KD_DSCV_SPR (PINN mode)
-    from kd.model.kd_dscv import KD_DSCV_SPR
-    if not isinstance(model, KD_DSCV_SPR):
+    # spr_* intents only work for KD_Discover_SPR (PINN mode)
+    from kd.model.kd_discover import KD_Discover_SPR
+    if not isinstance(model, KD_Discover_SPR):
         caps = [c for c in caps if not c.startswith("spr_")]
     return sorted(caps)
 
@@ -293,8 +293,8 @@ def _run_local(
                 model.fit_dataset(dataset, sample=sample)
 
             elif model_name == "KD_DSCV":
-                from kd.model.kd_dscv import KD_DSCV
-                model = KD_DSCV(
+                from kd.model.kd_discover import KD_Discover
+                model = KD_Discover(
                     binary_operators=_parse_ops(dscv_binary),
                     unary_operators=_parse_ops(dscv_unary),
                     n_samples_per_batch=int(dscv_batch),
@@ -304,8 +304,8 @@ def _run_local(
                 result = model.fit_dataset(dataset, n_epochs=int(dscv_epochs))
 
             elif model_name == "KD_DSCV_SPR":
-                from kd.model.kd_dscv import KD_DSCV_SPR
-                model = KD_DSCV_SPR(
+                from kd.model.kd_discover import KD_Discover_SPR
+                model = KD_Discover_SPR(
                     binary_operators=_parse_ops(dscv_binary),
                     unary_operators=_parse_ops(dscv_unary),
                     n_samples_per_batch=int(dscv_batch),
@@ -415,6 +415,15 @@ def check_gpu_status(job_id, request: gr.Request = None):
     try:
         result_data, save_dir = download_result(job_id, request)
         equation = result_data.get("equation", "(unknown)")
+        if result_data.get("status") == "error":
+            detail = result_data.get("error", "")
+            return (
+                f"Job {job_id} failed: {equation}\n{detail}",
+                None, None, gr.update(),
+                None,
+                gr.update(visible=True, value=f"Job {job_id}: Failed"),
+                gr.update(visible=False),
+            )
 
         eq_fig = None
         eq_img = os.path.join(save_dir, "equation.png")
@@ -437,8 +446,13 @@ def check_gpu_status(job_id, request: gr.Request = None):
             gr.update(visible=False),
         )
     except Exception as e:
-        return (f"Download failed: {e}",
-                None, None, gr.update()) + _NO_GPU
+        # Keep the job: the download can be tried again.
+        return (
+            f"Download failed: {e}", None, None, gr.update(),
+            job_id,
+            gr.update(visible=True, value=f"Job {job_id}: Download failed"),
+            gr.update(visible=True),
+        )
 
 
 # ── Visualization ──────────────────────────────────────────────
diff --git a/kd/job.py b/kd/job.py
index ab00855..19db316 100644
--- a/kd/job.py
+++ b/kd/job.py
@@ -15,6 +15,7 @@ Env vars (set in the Bohrium app image or .env):
 
 import json
 import os
+import shutil
 import tempfile
 
 # ── Configuration ─────────────────────────────────────────────
@@ -71,6 +72,9 @@ def submit_gpu_job(model_name, dataset_name, params, request,
     """
     from bohrium_open_sdk import UploadInputItem
 
+    if dataset_file and not os.path.exists(dataset_file):
+        raise FileNotFoundError(f"Dataset file not found: {dataset_file}")
+
     access_key, app_key = get_credentials(request)
     client = _client(access_key, app_key)
 
@@ -92,7 +96,7 @@ def submit_gpu_job(model_name, dataset_name, params, request,
         inputs = {"config": "", "output_dir": "output"}
         upload_files = [UploadInputItem(input_field="config", src=config_path)]
 
-        if dataset_file and os.path.exists(dataset_file):
+        if dataset_file:
             inputs["dataset_file"] = ""
             upload_files.append(
                 UploadInputItem(input_field="dataset_file", src=dataset_file)
@@ -118,7 +122,10 @@ def submit_gpu_job(model_name, dataset_name, params, request,
             inputs=inputs,
             upload_files=upload_files,
         )
-        return res["data"]["jobId"]
+        job_id = res["data"]["jobId"]
+        if not job_id:
+            raise RuntimeError(f"Job submission failed: {res}")
+        return job_id
     finally:
         try:
             os.unlink(config_path)
@@ -160,13 +167,16 @@ def download_result(job_id, request, save_dir=None):
         save_dir = os.path.join(JOB_OUTPUT_DIR, f"kd_{job_id}")
     os.makedirs(save_dir, exist_ok=True)
 
-    client.web.sub_model.download(
-        job_id, remote_target="output", save_path=save_dir
-    )
-
-    result_path = os.path.join(save_dir, "result.json")
-    if os.path.exists(result_path):
-        with open(result_path) as f:
-            return json.load(f), save_dir
-
-    return {"status": "error", "equation": "(result.json not found)"}, save_dir
+    # Files of an earlier download must not pass for the output of this one.
+    with tempfile.TemporaryDirectory(prefix="download_", dir=save_dir) as tmp:
+        client.web.sub_model.download(
+            job_id, remote_target="output", save_path=tmp
+        )
+        result = {"status": "error", "equation": "(result.json not found)"}
+        result_path = os.path.join(tmp, "result.json")
+        if os.path.exists(result_path):
+            with open(result_path) as f:
+                result = json.load(f)
+        shutil.copytree(tmp, save_dir, dirs_exist_ok=True)
+
+    return result, save_dir
diff --git a/kd/runner.py b/kd/runner.py
index 8e3b8d0..4cae0f3 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -40,7 +40,9 @@ def load_dataset(config):
     dataset_name = config.get("dataset_name")
     dataset_file = config.get("dataset_file")
 
-    if dataset_file and os.path.exists(dataset_file):
+    if dataset_file:
+        if not os.path.exists(dataset_file):
+            raise FileNotFoundError(f"Dataset file not found: {dataset_file}")
         from kd.dataset._base import PDEDataset, load_mat_file
 
         file_config = config.get("file_config", {})
@@ -61,6 +63,10 @@ def load_dataset(config):
             if not shape:
                 raise ValueError(".npy files require 'shape' in file_config, e.g. [100, 201]")
             nx, nt = shape
+            if data.ndim == 2 and data.shape == (nt, nx) and nx != nt:
+                data = data.T
+            elif data.ndim > 1 and data.shape != (nx, nt):
+                raise ValueError(f"Data of shape {data.shape} do not match the given shape {(nx, nt)}")
             domain = file_config.get("domain")
             x_range = domain["x"] if domain and "x" in domain else (0, 1)
             t_range = domain["t"] if domain and "t" in domain else (0, 1)
@@ -199,7 +205,7 @@ def main():
 
     output_dir = args.output_dir or config.get("output_dir", "output")
     params = config.get("params", {})
-    dataset_info = config.get("dataset_name") or config.get("dataset_file", "unknown")
+    dataset_info = config.get("dataset_file") or config.get("dataset_name") or "unknown"
 
     print(f"=== KD GPU Runner ===")
     print(f"  Model   : {model_name}")
-- 
2.43.0


From e995fed06e4e94ce3560d1e3a815c70235f0a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:00 +0000
Subject: [PATCH 51/69] fix: regression wrappers: names replace exactly their
 inputs; a failed fit leaves the previous one in force

---
 kd/model/kd_discover_regression.py | 13 +++++++------
 kd/model/kd_pysr.py                | 10 ++++++----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index 3517fc1..cc33231 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -64,10 +64,10 @@ class KD_Discover_Regression(KD_Discover):
 
     @staticmethod
     def _render_named_expression(expression: str, var_names: Sequence[str]) -> str:
-        rendered = expression
-        for index, name in reversed(list(enumerate(var_names, start=1))):
-            rendered = rendered.replace(f"x{index}", name)
-        return rendered
+        # One pass, whole tokens: a name never gets replaced again, and other
+        # tokens that merely contain "x1" stay as they are.
+        names = {f"x{index}": str(name) for index, name in enumerate(var_names, start=1)}
+        return ",".join(names.get(token, token) for token in expression.split(","))
 
     @staticmethod
     def _format_constant(value: float) -> str:
@@ -93,12 +93,10 @@ class KD_Discover_Regression(KD_Discover):
         self.data_class = _RegressionArrayData(X_arr, y_arr, names)
         self.dataset = "custom_regression"
         self.dataset_ = None
-        self.n_features_in_ = X_arr.shape[1]
         self.setup()
 
         raw_result = self.train(n_epochs=self.n_iterations, verbose=verbose)
         program = raw_result["program"]
-        self.best_program_ = program
 
         expression = self._serialize_program(program)
         result = {
@@ -110,6 +108,9 @@ class KD_Discover_Regression(KD_Discover):
             "program": program,
             "var_names": names,
         }
+        # Only now: after a failed fit the previous one stays in force as a whole.
+        self.best_program_ = program
+        self.n_features_in_ = X_arr.shape[1]
         self.result_ = result
         return result
 
diff --git a/kd/model/kd_pysr.py b/kd/model/kd_pysr.py
index 56d178f..c0122df 100644
--- a/kd/model/kd_pysr.py
+++ b/kd/model/kd_pysr.py
@@ -180,11 +180,13 @@ class KD_PySR(BaseEstimator):
                 f"KD_PySR.fit 收到不匹配的样本数：X.shape[0]={X_arr.shape[0]}, y.shape[0]={y_arr.shape[0]}"
             )
 
-        self.X_train_ = X_arr
-        self.y_train_ = y_arr
+        model = self._build_backend()
+        model.fit(X_arr, y_arr)
 
-        self._model = self._build_backend()
-        self._model.fit(X_arr, y_arr)
+        # Only now: after a failed fit the previous one stays in force as a whole.
+        self._model = model
+        self.X_train_ = X_arr.copy()
+        self.y_train_ = y_arr.copy()
         self._update_equation_info()
         return self
 
-- 
2.43.0


From 3e1a44480fea718e53d5f4317abb87e62bb8be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:38 +0000
Subject: [PATCH 52/69] fix: DISCOVER equations: names and operators kept
 whole, sums in parentheses, chain rule through parameter fields, left-hand
 axis

---
 kd/model/discover/stridge.py |  12 +-
 kd/viz/_adapters/discover.py |  11 +-
 kd/viz/discover_eq2latex.py  | 347 +++++++++++++++++++++++------------
 3 files changed, 251 insertions(+), 119 deletions(-)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index d120922..45134f6 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -107,6 +107,9 @@ class Node(object):
         if not self.children:  # leaf node (variable or constant)
             # 叶子节点的 node_op_name (来自 token.name) 通常可以直接用。
             # sympy.parse_expr 会在 local_dict 的帮助下将 "u1", "x1" 识别为符号，并能直接解析数字字符串（如果常数节点的 .val 是数字字符串）
+            value = getattr(self.token, "value", None)
+            if value is not None:  # an optimised constant
+                return repr(float(np.asarray(value).reshape(-1)[0]))
             return node_op_name
 
         # 递归步骤：获取所有子节点的 SymPy 字符串表示
@@ -167,10 +170,17 @@ class Node(object):
             # logabs(x) 对应 SymPy 的 log(Abs(x))
             return f"log(Abs({child_sympy_strings[0]}))"
 
+        elif base_op_name == "neg":
+            return f"Mul({child_sympy_strings[0]}, -1)"
+        elif base_op_name == "inv":
+            return f"Pow({child_sympy_strings[0]}, -1)"
+        elif base_op_name in ("max", "min"):
+            return f"{base_op_name.capitalize()}({child_sympy_strings[0]}, {child_sympy_strings[1]})"
+
         # 可以根据 Program.library 中定义的其他函数继续添加 elif 分支
         # 例如，如果库中有 "sin", "cos", "exp" 等标准数学函数:
         # SymPy 的 parse_expr 通常能直接识别小写的标准数学函数名。
-        elif base_op_name in ["sin", "cos", "tan", "exp", "log", "sqrt", "abs"]: # 等等
+        elif base_op_name in ["sin", "cos", "tan", "exp", "log", "sqrt", "abs", "tanh"]: # 等等
             if len(child_sympy_strings) == 1: # 假设这些都是一元函数
                 return f"{base_op_name}({child_sympy_strings[0]})"
             else: # 元数不匹配的防御性处理
diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 0426da0..dc38f35 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -218,7 +218,16 @@ class DiscoverVizAdapter:
 
         try:
             notation = ctx.options.get('notation', 'subscript')
-            latex = discover_program_to_latex(program, notation=notation)
+            dataset = getattr(model, 'dataset_', None)
+            lhs_axis = getattr(dataset, 'lhs_axis', None) or 't'
+            axis_order = getattr(dataset, 'axis_order', None)
+            latex = discover_program_to_latex(
+                program,
+                lhs_axis=lhs_axis if lhs_axis != 't' else None,
+                notation=notation,
+                axis_names=[axis for axis in axis_order if axis != lhs_axis]
+                if isinstance(axis_order, (list, tuple)) else None,
+            )
         except Exception as exc:  # pragma: no cover - dependent on program internals
             return VizResult(intent='equation', warnings=[f'Failed to convert program to LaTeX: {exc}'])
 
diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 258e66d..17d5933 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -1,11 +1,18 @@
+import functools
+import io
 import logging
+import math
+import re
+import tokenize
 from typing import Optional
 
 import sympy
 
 logger = logging.getLogger(__name__)
+from sympy.core.function import AppliedUndef
 from sympy.parsing.sympy_parser import parse_expr
 from sympy.printing.latex import LatexPrinter
+from sympy.printing.precedence import PRECEDENCE
 
 from kd.viz.dlga_eq2latex import _format_full_latex_term
 
@@ -25,15 +32,96 @@ _SYMBOL_DISPLAY = {
     "p1": "p_{1}", "p2": "p_{2}", "p3": "p_{3}",
 }
 
-# Function-based symbols for Leibniz mode (produces \partial instead of d)
+# Function-based symbols for Leibniz mode (produces \partial instead of d):
+# the solution and the parameter fields depend on the coordinates
 _x1, _x2, _x3 = sympy.symbols('x1 x2 x3')
 _LEIBNIZ_SYMBOLS_FOR_SYMPY = {
-    'u1': sympy.Function('u1')(_x1, _x2, _x3),
     'x1': _x1, 'x2': _x2, 'x3': _x3,
     'c': sympy.Symbol('c'),
-    'p1': sympy.Symbol('p1'), 'p2': sympy.Symbol('p2'), 'p3': sympy.Symbol('p3'),
+    **{
+        name: sympy.Function(name)(_x1, _x2, _x3)
+        for name in ('u1', 'p1', 'p2', 'p3')
+    },
 }
 
+# What the function names written by Node.to_sympy_string() stand for; any
+# other name is an operator shown as it is called.
+_FUNCTIONS_FOR_SYMPY = {
+    **{
+        name: getattr(sympy, name)
+        for name in (
+            'Add', 'Mul', 'Pow', 'Derivative', 'Abs', 'Max', 'Min',
+            'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'tanh',
+        )
+    },
+    'abs': sympy.Abs,
+}
+
+_COORDINATE_NAME = re.compile(r'x\d+$')
+
+
+def _leaf_symbol(name, leibniz):
+    """Symbol of a leaf of the expression: a coordinate, or a field."""
+    if not leibniz or name == 'c' or _COORDINATE_NAME.match(name):
+        return sympy.Symbol(name)
+    return sympy.Function(name)(_x1, _x2, _x3)
+
+
+@functools.lru_cache(maxsize=None)
+def _operator(name):
+    """An operator only known by name, such as laplacian; not a field."""
+    return type(name, (sympy.Function,), {})
+
+
+def _parse_term(sympy_expr_str, local_sympy_symbols, notation):
+    """Parse the string of a term.
+
+    Every name in it is one symbol or one operator: without this the parser
+    splits the names it does not know into letters, or takes them for SymPy's
+    own objects.
+    """
+    leibniz = notation == "leibniz"
+    names = {}
+    pieces = []
+    tokens = [
+        tok for tok in tokenize.generate_tokens(io.StringIO(sympy_expr_str).readline)
+        if tok.string.strip()
+    ]
+    for i, tok in enumerate(tokens):
+        if tok.type != tokenize.NAME:
+            pieces.append(tok.string)
+            continue
+        name = tok.string
+        called = i + 1 < len(tokens) and tokens[i + 1].string == '('
+        if name in local_sympy_symbols:
+            value = local_sympy_symbols[name]
+        elif called:
+            value = _FUNCTIONS_FOR_SYMPY.get(name) or _operator(name)
+        else:
+            value = _leaf_symbol(name, leibniz)
+        # numbered stand-ins: a name may also be a Python keyword
+        key = f"kd_name_{len(names)}"
+        names[key] = value
+        pieces.append(key)
+    return parse_expr(
+        " ".join(pieces),
+        local_dict=names,
+        transformations='all',
+    )
+
+
+class _LeibnizLatexPrinter(LatexPrinter):
+    """SymPy's notation, with a product under a derivative in parentheses."""
+
+    def _print_Derivative(self, expr):
+        latex_output = super()._print_Derivative(expr)
+        if expr.expr.is_Mul:
+            body = self.parenthesize(expr.expr, PRECEDENCE["Mul"], is_neg=False, strict=True)
+            wrapped = r"\left(%s\right)" % self._print(expr.expr)
+            if latex_output.endswith(body) and body != wrapped:
+                latex_output = latex_output[:len(latex_output) - len(body)] + wrapped
+        return latex_output
+
 
 class _SubscriptLatexPrinter(LatexPrinter):
     """Render Derivative(u, x, x) as u_{xx} instead of Leibniz notation."""
@@ -41,34 +129,60 @@ class _SubscriptLatexPrinter(LatexPrinter):
     def _print_Derivative(self, expr):
         func = expr.args[0]
         if isinstance(func, sympy.Symbol):
-            func_name = _SYMBOL_DISPLAY.get(func.name, func.name)
-        elif hasattr(func, 'func') and hasattr(func.func, 'name'):
-            # Applied function like u1(x1, x2): func.func has .name
-            func_name = _SYMBOL_DISPLAY.get(func.func.name, func.func.name)
+            func_name = self._print(func)
+        elif isinstance(func, AppliedUndef) and set(func.args) <= _coordinates(func):
+            # Applied function like u1(x1, x2): a field
+            func_name = self._print(sympy.Symbol(func.func.__name__))
         else:
             # Compound expression (Pow, Mul, Add, etc.): render via printer
             func_name = "(" + self._print(func) + ")"
+        if "_" in func_name and not func_name.startswith("("):
+            func_name = "{" + func_name + "}"  # already carries a subscript
 
         subscript_parts = []
         for var, count in expr.variable_count:
-            var_name = _SYMBOL_DISPLAY.get(var.name, var.name)
-            subscript_parts.append(var_name * count)
+            subscript_parts.append(self._print(var) * count)
 
         subscript = "".join(subscript_parts)
         return f"{func_name}_{{{subscript}}}"
 
+    def __init__(self, display=None):
+        super().__init__()
+        self._display = {**_SYMBOL_DISPLAY, **(display or {})}
+
     def _print_Symbol(self, expr):
-        name = expr.name
-        return _SYMBOL_DISPLAY.get(name, super()._print_Symbol(expr))
+        if expr.name in self._display:
+            return self._display[expr.name]
+        return super()._print_Symbol(expr)
 
 
 # ---------------------------------------------------------------------------
 # First-order compound derivative expansion
 # ---------------------------------------------------------------------------
 
-# Symbols that represent dependent variables (functions of x1, x2, x3)
-_FUNC_SYMBOL_NAMES = frozenset({'u1'})
-_VAR_SYMBOL_NAMES = frozenset({'x1', 'x2', 'x3'})
+def _coordinates(expr):
+    """Coordinate symbols (x1, x2, x3, ...) of *expr*."""
+    return {sym for sym in expr.free_symbols if _COORDINATE_NAME.match(sym.name)}
+
+
+def _is_field(expr):
+    """Whether *expr* is a function of the coordinates, such as u1(x1, x2, x3)."""
+    return isinstance(expr, AppliedUndef) and bool(expr.args) and \
+        set(expr.args) <= _coordinates(expr)
+
+
+# Functions the chain rule is carried through
+_SMOOTH_FUNCTIONS = (
+    sympy.exp, sympy.log, sympy.sin, sympy.cos, sympy.tan, sympy.tanh,
+)
+
+
+def _can_differentiate(expr):
+    """Whether every function in *expr* has a derivative to write down."""
+    return all(
+        _is_field(f) or isinstance(f, _SMOOTH_FUNCTIONS)
+        for f in expr.atoms(sympy.Function, sympy.Max, sympy.Min)
+    )
 
 
 def _is_first_order_compound_derivative(expr: sympy.Basic) -> bool:
@@ -79,7 +193,6 @@ def _is_first_order_compound_derivative(expr: sympy.Basic) -> bool:
     if total_order != 1:
         return False
     func = expr.args[0]
-    from sympy.core.function import AppliedUndef
     return not isinstance(func, (sympy.Symbol, AppliedUndef))
 
 
@@ -95,33 +208,31 @@ def _expand_first_order_compound_derivatives(
     Only first-order compound derivatives are expanded; everything else
     is returned unchanged with factor 1.
     """
-    if not _is_first_order_compound_derivative(expr):
+    if not _is_first_order_compound_derivative(expr) or not _can_differentiate(expr):
         return sympy.Integer(1), expr
 
-    # Symbol → Function substitution
-    sym_to_fn: dict = {}
-    var_syms = [sympy.Symbol(v) for v in sorted(_VAR_SYMBOL_NAMES)]
-    for name in _FUNC_SYMBOL_NAMES:
-        sym = sympy.Symbol(name)
-        fn = sympy.Function(name)(*var_syms)
-        sym_to_fn[sym] = fn
-
-    expr_fn = expr
-    for sym, fn in sym_to_fn.items():
-        expr_fn = expr_fn.subs(sym, fn)
-
-    expanded = expr_fn.doit()
-
-    # Function → Symbol substitution (reverse)
-    for sym, fn in sym_to_fn.items():
-        # Replace derivatives first (higher order → lower order)
-        for vs in var_syms:
-            for order in range(4, 0, -1):
-                expanded = expanded.subs(
-                    sympy.Derivative(fn, (vs, order)),
-                    sympy.Derivative(sym, *([vs] * order)),
-                )
-        expanded = expanded.subs(fn, sym)
+    # Symbol → Function substitution: every symbol other than a coordinate and
+    # the constant c is a field over the coordinates
+    coordinates = sorted(_coordinates(expr) | {_x1, _x2, _x3}, key=str)
+    sym_to_fn = {
+        sym: sympy.Function(f"field_{i}")(*coordinates)
+        for i, sym in enumerate(sorted(expr.free_symbols - set(coordinates), key=str))
+        if sym.name != 'c'
+    }
+    fn_to_sym = {fn: sym for sym, fn in sym_to_fn.items()}
+
+    def replaced(node, mapping):
+        # Derivatives are rebuilt by hand: subs() would not touch the ones the
+        # new symbol does not appear to depend on
+        if node in mapping:
+            return mapping[node]
+        if isinstance(node, sympy.Derivative):
+            return sympy.Derivative(replaced(node.expr, mapping), *node.variable_count)
+        if not node.args:
+            return node
+        return node.func(*(replaced(arg, mapping) for arg in node.args))
+
+    expanded = replaced(replaced(expr, sym_to_fn).doit(), fn_to_sym)
 
     # Extract numeric factor: 2*u1*Derivative(u1, x1) → (2, u1*Derivative(...))
     coeff, rest = expanded.as_coeff_Mul()
@@ -132,6 +243,41 @@ def _expand_first_order_compound_derivatives(
 # Node → LaTeX (with optional expansion)
 # ---------------------------------------------------------------------------
 
+def _default_symbols(notation):
+    if notation == "leibniz":
+        return _LEIBNIZ_SYMBOLS_FOR_SYMPY
+    return DEEPRL_SYMBOLS_FOR_SYMPY
+
+
+def _term_to_sympy(term_node_obj, local_sympy_symbols, notation):
+    """Parse a term node into a SymPy expression."""
+    if not hasattr(term_node_obj, 'to_sympy_string'):
+        raise AttributeError("Node object does not implement to_sympy_string().")
+    sympy_expr_str = term_node_obj.to_sympy_string()
+    if DEBUG_RENDERER_MODE:
+        logger.debug("Node '%r'.to_sympy_string() -> '%s'", term_node_obj, sympy_expr_str)
+    if local_sympy_symbols is None:
+        local_sympy_symbols = _default_symbols(notation)
+    parsed = _parse_term(sympy_expr_str, local_sympy_symbols, notation)
+    if DEBUG_RENDERER_MODE:
+        logger.debug("Parsed SymPy expression: %s", parsed)
+    return parsed
+
+
+def _sympy_to_latex(expr, notation, display=None):
+    if notation == "subscript":
+        return _SubscriptLatexPrinter(display).doprint(expr)
+    return _LeibnizLatexPrinter().doprint(expr)
+
+
+def _split_number(expr):
+    """Split *expr* into its numeric factor, as a float, and the rest."""
+    factor, rest = expr.as_coeff_Mul()
+    if factor.is_real and factor.is_finite and math.isfinite(float(factor)):
+        return float(factor), rest
+    return 1.0, expr
+
+
 def _discover_term_node_to_latex_expanded(
     term_node_obj,
     local_sympy_symbols=None,
@@ -141,69 +287,28 @@ def _discover_term_node_to_latex_expanded(
     """Like ``_discover_term_node_to_latex`` but also expands first-order
     compound derivatives, returning ``(numeric_factor, latex_string)``.
     """
-    if local_sympy_symbols is None:
-        if notation == "leibniz":
-            local_sympy_symbols = _LEIBNIZ_SYMBOLS_FOR_SYMPY
-        else:
-            local_sympy_symbols = DEEPRL_SYMBOLS_FOR_SYMPY
-
-    sympy_expr_str = term_node_obj.to_sympy_string()
-    parsed = parse_expr(
-        sympy_expr_str,
-        local_dict=local_sympy_symbols,
-        transformations='all',
-    )
-
+    parsed = _term_to_sympy(term_node_obj, local_sympy_symbols, notation)
     factor, expanded = _expand_first_order_compound_derivatives(parsed)
-
-    if notation == "subscript":
-        latex_output = _SubscriptLatexPrinter().doprint(expanded)
-    else:
-        latex_output = sympy.latex(expanded)
-
-    return factor, latex_output
+    return factor, _sympy_to_latex(expanded, notation)
 
 
 # Node -> LaTeX
 def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, notation="subscript"):
-    if local_sympy_symbols is None:
-        if notation == "leibniz":
-            local_sympy_symbols = _LEIBNIZ_SYMBOLS_FOR_SYMPY
-        else:
-            local_sympy_symbols = DEEPRL_SYMBOLS_FOR_SYMPY
     try:
-        if not hasattr(term_node_obj, 'to_sympy_string'):
-            raise AttributeError("Node object does not implement to_sympy_string().")
-
-        sympy_expr_str = term_node_obj.to_sympy_string()
+        return _sympy_to_latex(
+            _term_to_sympy(term_node_obj, local_sympy_symbols, notation), notation,
+        )
+    except Exception as e:
+        return _term_error(term_node_obj, e)
 
-        if DEBUG_RENDERER_MODE:
-             logger.debug("Node '%r'.to_sympy_string() -> '%s'", term_node_obj, sympy_expr_str)
 
-        parsed_sympy_expr = parse_expr(
-            sympy_expr_str,
-            local_dict=local_sympy_symbols,
-            transformations='all',  # allow a broad set of SymPy-compatible transformations
-        )
-        if DEBUG_RENDERER_MODE:
-            logger.debug("Parsed SymPy expression: %s", parsed_sympy_expr)
+def _term_error(term_node_obj, e):
+    error_repr = repr(term_node_obj) if term_node_obj else "None"
+    logger.error("_discover_term_node_to_latex failed for node '%s': %s", error_repr, e)
+    if DEBUG_RENDERER_MODE:
+        logger.debug("Traceback:", exc_info=True)
+    return f"\\text{{Error converting node: {error_repr}}}"
 
-        if notation == "subscript":
-            latex_output = _SubscriptLatexPrinter().doprint(parsed_sympy_expr)
-        else:
-            latex_output = sympy.latex(parsed_sympy_expr)
-        return latex_output
-    except Exception as e:
-        import traceback
-        error_repr = repr(term_node_obj) if term_node_obj else "None"
-        sympy_str_val = sympy_expr_str if 'sympy_expr_str' in locals() else "<sympy string not generated>"
-        logger.error(
-            "_discover_term_node_to_latex failed for node '%s' "
-            "(SymPy str: '%s'): %s", error_repr, sympy_str_val, e,
-        )
-        if DEBUG_RENDERER_MODE:
-             logger.debug("Traceback:", exc_info=True)
-        return f"\\text{{Error converting node: {error_repr}}}"
 
 _VALID_NOTATIONS = ("subscript", "leibniz")
 
@@ -213,7 +318,8 @@ def discover_program_to_latex(program_object, # lhs_name_str,
                             custom_deeprl_symbols=None,
                             lhs_axis: Optional[str] = None,
                             notation: str = "subscript",
-                            expand_derivatives: bool = True):
+                            expand_derivatives: bool = True,
+                            axis_names=None):
     """
     Convert a Program object to a full LaTeX equation string.
 
@@ -222,6 +328,9 @@ def discover_program_to_latex(program_object, # lhs_name_str,
     lhs_axis : str, optional
         Axis name for the LHS derivative (e.g. 't', 'x', 'y').
         Defaults to 't' → ``u_t``.
+    axis_names : sequence of str, optional
+        Names of the axes ``x1``, ``x2``, ... stand for, for the subscript
+        notation. Defaults to x, y, z.
     """
     if notation not in _VALID_NOTATIONS:
         raise ValueError(f"notation must be one of {_VALID_NOTATIONS}, got {notation!r}")
@@ -239,7 +348,7 @@ def discover_program_to_latex(program_object, # lhs_name_str,
             hasattr(program_object.STRidge, 'terms') and \
             program_object.w is not None and \
             program_object.STRidge.terms is not None and \
-            len(program_object.w) == len(program_object.STRidge.terms)):
+            len(program_object.w) - len(program_object.STRidge.terms) in (0, 1)):
         if DEBUG_RENDERER_MODE:
             w_status = str(getattr(program_object, 'w', '<w attribute not found>'))
             terms_status = str(
@@ -268,32 +377,36 @@ def discover_program_to_latex(program_object, # lhs_name_str,
     rhs_latex_full_terms = []
     processed_terms_count = 0  # used to keep track of first RHS term
 
-    if custom_deeprl_symbols:
-        current_sympy_symbols = custom_deeprl_symbols
-    elif notation == "leibniz":
-        current_sympy_symbols = _LEIBNIZ_SYMBOLS_FOR_SYMPY
-    else:
-        current_sympy_symbols = DEEPRL_SYMBOLS_FOR_SYMPY
+    current_sympy_symbols = custom_deeprl_symbols or None
+    display = {f"x{i + 1}": str(name) for i, name in enumerate(axis_names or ())}
 
     for i, coeff_val_from_w in enumerate(coefficients):
         # program.w 可能是一个普通列表或1D NumPy数组
         coeff_val = float(coeff_val_from_w)
-        term_node = term_nodes[i]
-
-        # Get base term LaTeX for this node.
-        if expand_derivatives:
-            factor, base_term_latex = _discover_term_node_to_latex_expanded(
-                term_node,
-                local_sympy_symbols=current_sympy_symbols,
-                notation=notation,
-            )
-            coeff_val *= float(factor)
+        if i < len(term_nodes):
+            term_node = term_nodes[i]
+            base_term_latex = None
+            try:
+                term_expr = _term_to_sympy(term_node, current_sympy_symbols, notation)
+            except Exception as e:
+                if expand_derivatives:
+                    raise
+                base_term_latex = _term_error(term_node, e)
+
+            # Get base term LaTeX for this node; its numeric factors go to the
+            # coefficient, which multiplies the whole of it.
+            if base_term_latex is None:
+                if expand_derivatives:
+                    factor, term_expr = _expand_first_order_compound_derivatives(term_expr)
+                    term_expr = factor * term_expr
+                factor, term_expr = _split_number(term_expr)
+                coeff_val *= factor
+                base_term_latex = _sympy_to_latex(term_expr, notation, display)
+                if term_expr.is_Add:
+                    base_term_latex = rf"\left({base_term_latex}\right)"
         else:
-            base_term_latex = _discover_term_node_to_latex(
-                term_node,
-                local_sympy_symbols=current_sympy_symbols,
-                notation=notation,
-            )
+            # The constant fitted along with the terms
+            term_node, base_term_latex = None, "1"
 
         if DEBUG_RENDERER_MODE and "\\text{Error" in base_term_latex:
             logger.warning(
-- 
2.43.0


From 27be4d205ab88527c7b1bb8b57f94101ecece776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 53/69] fix: residuals of integer and boolean data no longer
 wrap around in plot summaries

---
 kd/viz/_contracts.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kd/viz/_contracts.py b/kd/viz/_contracts.py
index 0425727..5de711e 100644
--- a/kd/viz/_contracts.py
+++ b/kd/viz/_contracts.py
@@ -8,6 +8,16 @@ from typing import Any, Dict, List, Optional
 import numpy as np
 
 
+def _difference(actual: np.ndarray, predicted: np.ndarray) -> np.ndarray:
+    """``actual - predicted`` that neither wraps around nor refuses booleans."""
+    def signed(values: np.ndarray) -> np.ndarray:
+        if values.dtype.kind == 'u' and values.dtype.itemsize >= 8:
+            return values.astype(float)
+        return values.astype(np.int64) if values.dtype.kind in 'bui' else values
+
+    return signed(np.asarray(actual)) - signed(np.asarray(predicted))
+
+
 @dataclass
 class ResidualPlotData:
     actual: np.ndarray
@@ -45,7 +55,7 @@ class ResidualPlotData:
     ) -> "ResidualPlotData":
         actual_arr = np.asarray(actual)
         pred_arr = np.asarray(predicted)
-        residuals = actual_arr - pred_arr
+        residuals = _difference(actual_arr, pred_arr)
         coords = None
         if input_coordinates is not None:
             coords = np.asarray(input_coordinates)
@@ -151,7 +161,7 @@ class FieldComparisonData:
             )
 
         if residual_field is None:
-            self.residual_field = self.true_field - self.predicted_field
+            self.residual_field = _difference(self.true_field, self.predicted_field)
         else:
             residual = np.asarray(residual_field)
             if residual.shape != expected_shape:
@@ -350,7 +360,7 @@ class ParityPlotData:
     ) -> "ParityPlotData":
         actual_arr = np.asarray(actual_values)
         predicted_arr = np.asarray(predicted_values)
-        residuals = actual_arr - predicted_arr
+        residuals = _difference(actual_arr, predicted_arr)
         return cls(
             actual_values=actual_arr,
             predicted_values=predicted_arr,
-- 
2.43.0


From 0d35460a3136a0ed25f0c010293ed8f7d4fdfe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 54/69] fix: refuse a time slice at NaN instead of plotting the
 first one

---
 kd/viz/_contracts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/viz/_contracts.py b/kd/viz/_contracts.py
index 5de711e..4d5e172 100644
--- a/kd/viz/_contracts.py
+++ b/kd/viz/_contracts.py
@@ -293,7 +293,8 @@ class TimeSliceComparisonData:
                 f"(spatial_coords sizes + t_coords size), got {self.true_field.shape}"
             )
 
-        if np.any(self.slice_times < self.t_coords.min()) or np.any(self.slice_times > self.t_coords.max()):
+        # stated positively so that a NaN time is refused as well
+        if not np.all((self.slice_times >= self.t_coords.min()) & (self.slice_times <= self.t_coords.max())):
             raise ValueError("'slice_times' must fall within the provided time coordinate range")
 
     @property
-- 
2.43.0


From 9b17680433243d8f60b106da660d8654599aa8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:23 +0000
Subject: [PATCH 55/69] fix: DLGA term relationships with a constant term no
 longer fail

---
 kd/viz/_adapters/dlga.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index f3deafd..e628670 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -612,7 +612,10 @@ class DLGAVizAdapter:
                 term_arrays = [np.asarray(metadata[operators[gene]]) for gene in module]
             except KeyError:
                 continue
-            term_values = np.prod(term_arrays, axis=0).reshape(-1)
+            if module:
+                term_values = np.prod(term_arrays, axis=0).reshape(-1)
+            else:  # the constant 1, one value per sample
+                term_values = np.ones(lhs_values.shape)
             label = ' * '.join(operators[gene] for gene in module) or '1'
             contributions.append(
                 TermContribution(
-- 
2.43.0


From 5d71f0ce8aaf32027490d6f00c63b2b8b3e41141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:23 +0000
Subject: [PATCH 56/69] fix: reward density curves keep their own epoch labels

---
 kd/viz/_adapters/discover.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index dc38f35..a8238e8 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -141,7 +141,9 @@ class DiscoverVizAdapter:
             epoches = list(range(0, len(history), step))
             if (len(history) - 1) not in epoches:
                 epoches.append(len(history) - 1)
-        data = history if epoches is None else [history[i] for i in epoches if i < len(history)]
+        # drop what does not exist before labelling, so labels stay with their curves
+        shown = list(range(len(history))) if epoches is None else [i for i in epoches if i < len(history)]
+        data = [history[i] for i in shown]
         if not data:
             return VizResult(intent='density', warnings=['No data available for requested epochs.'])
 
@@ -150,7 +152,7 @@ class DiscoverVizAdapter:
             sns.kdeplot(
                 np.asarray(rewards),
                 ax=ax,
-                label=f'Epoch {epoches[idx] if epoches else idx}',
+                label=f'Epoch {shown[idx]}',
                 fill=False,
             )
 
-- 
2.43.0


From 7a9c21135e9f8010ea8fda0ff6e59f617112045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:23 +0000
Subject: [PATCH 57/69] fix: Discover figures keep the direction of a
 descending spatial axis

---
 kd/viz/discover_viz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index 686dd57..5d59011 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -314,7 +314,9 @@ def _calculate_pde_fields_nd(
     spatial_dxs = []
     for dim_idx in range(n_input_dim):
         coord_1d = np.asarray(data_dict['X'][dim_idx]).flatten()
-        coord_unique = np.unique(coord_1d)
+        # distinct values in the order the grid has them (it may be descending)
+        _, first_seen = np.unique(coord_1d, return_index=True)
+        coord_unique = coord_1d[np.sort(first_seen)]
         if coord_unique.size < 2:
             raise ValueError(
                 f"Spatial dimension {dim_idx} has fewer than 2 unique "
-- 
2.43.0


From 598c16dd00ed3365e9c029f42fca754f56982692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 58/69] fix: a problem context keeps its prepared data out of
 the caller's configuration

---
 kd/model/sga/sgapde/context.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 9483762..31b6f32 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -3,6 +3,8 @@ ProblemContext class to encapsulate all problem-specific data and computations.
 This replaces the global state from setup.py.
 """
 
+import copy
+
 import numpy as np
 import scipy.io as scio
 import torch
@@ -26,7 +28,8 @@ class ProblemContext:
         Args:
             config: Configuration object containing problem parameters
         """
-        self.config = config
+        # What is prepared here (cropped fields, trained models) stays out of the caller's object.
+        self.config = copy.copy(config)
         self.device = config.device
 
         self.simple_mode = config.simple_mode
@@ -645,6 +648,7 @@ class ProblemContext:
             autograd_models = {}
         if not isinstance(autograd_models, dict):
             raise TypeError("autograd_models must be a dict when provided.")
+        autograd_models = dict(autograd_models)
 
         if (
             getattr(self.config, "autograd_model", None) is not None
@@ -657,6 +661,7 @@ class ProblemContext:
             autograd_model_paths = {}
         if not isinstance(autograd_model_paths, dict):
             raise TypeError("autograd_model_paths must be a dict when provided.")
+        autograd_model_paths = dict(autograd_model_paths)
         if self.config.model_path and self.target_field not in autograd_model_paths:
             autograd_model_paths[self.target_field] = self.config.model_path
 
-- 
2.43.0


From 82d426bc73bbac1be77b5a87df46ed3f746af50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:23 +0000
Subject: [PATCH 59/69] fix: origin derivatives of a trained network use the
 normalization it was trained with

---
 kd/model/sga/sgapde/context.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 31b6f32..2a8de7d 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -758,7 +758,13 @@ class ProblemContext:
                 coord_vectors.append(coord.reshape(-1))
             X = np.stack(coord_vectors, axis=1).astype(np.float32)
 
-            if normalize:
+            # A network trained here keeps the normalization it was trained with on every grid.
+            stats = (getattr(self, "autograd_stats", None) or {}).get(self.target_field)
+            if normalize and stats is not None:
+                x_std_safe = np.asarray(stats["x_std"], dtype=float)
+                X_in = (X - stats["x_mean"]) / x_std_safe
+                y_std = float(np.ravel(stats["y_std"])[0])
+            elif normalize:
                 x_mean = X.mean(axis=0)
                 x_std = X.std(axis=0)
                 x_std_safe = np.where(x_std == 0.0, 1.0, x_std)
-- 
2.43.0


From 0dbe7e757241b89f23677b6d0278c7c08441691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:46 +0000
Subject: [PATCH 60/69] fix: retrained EqGPT surrogates are fitted in the units
 of the grid they are scored on

---
 kd/model/kd_eqgpt.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/kd/model/kd_eqgpt.py b/kd/model/kd_eqgpt.py
index f95e299..c1907dd 100644
--- a/kd/model/kd_eqgpt.py
+++ b/kd/model/kd_eqgpt.py
@@ -314,6 +314,17 @@ class KD_EqGPT:
 
         return all_Net, all_database, all_nx, all_nt
 
+    @staticmethod
+    def _case_scales(trail_num: str) -> Tuple[float, float]:
+        """Period and wave length that make a case's time and position dimensionless."""
+        pattern = r"G(\d+)Tp(\d+)A(\d+)"
+        match = re.search(pattern, trail_num)
+        if match is None:
+            raise ValueError(f"Cannot parse case name: {trail_num}")
+        _g, tp_int, _a = map(int, match.groups())
+        tp = tp_int / 10.0
+        return tp, 9.81 * (tp ** 2) / (2.0 * math.pi)
+
     def _train_single_surrogate(
         self,
         trail_num: str,
@@ -336,10 +347,13 @@ class KD_EqGPT:
             Activation_Function="Sin", Batch_Norm=False,
         ).to(device)
 
-        # Prepare data (same as surrogate_model.py train())
+        # Prepare data (same as multi_surrogate_model.py train()): the units of
+        # the grid the candidates are scored on
+        tp, lamda = self._case_scales(trail_num)
         inputs = data[:, 0:2].copy()
-        inputs[:, 1] = inputs[:, 1] - 8
-        outputs = data[:, 2].reshape(-1, 1) * 100
+        inputs[:, 0] = inputs[:, 0] / tp
+        inputs[:, 1] = (inputs[:, 1] - 8.17) / lamda
+        outputs = data[:, 2].reshape(-1, 1) / lamda * 100
 
         n_samples = inputs.shape[0]
         indices = np.arange(n_samples)
@@ -420,14 +434,7 @@ class KD_EqGPT:
         )
         net.eval()
 
-        # Parse physical parameters from case name
-        pattern = r"G(\d+)Tp(\d+)A(\d+)"
-        match = re.search(pattern, trail_num)
-        if match is None:
-            raise ValueError(f"Cannot parse case name: {trail_num}")
-        g, tp_int, _a = map(int, match.groups())
-        tp = tp_int / 10.0
-        lamda = 9.81 * (tp ** 2) / (2.0 * math.pi)
+        tp, lamda = self._case_scales(trail_num)
 
         # Build coordinate grid
         x = np.concatenate([
-- 
2.43.0


From c18daf8329c49448b4b4a2fea8a29ca9f899f6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:30 +0000
Subject: [PATCH 61/69] fix: a discarded term leaves no half-evaluated nodes
 behind

---
 kd/model/sga/sgapde/pde.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/pde.py b/kd/model/sga/sgapde/pde.py
index 96242c7..90553e0 100644
--- a/kd/model/sga/sgapde/pde.py
+++ b/kd/model/sga/sgapde/pde.py
@@ -218,7 +218,10 @@ def evaluate_mse(a_pde, context, is_term=False, *, return_matrix=False):
 
         if term_invalid:
             delete_ix.append(ix)
-            tree_list[0][0].cache = tree_list[0][0].var
+            # 项被中途丢弃：所有节点都要重置缓冲池，否则再次评估同一棵树会读到残留的中间结果
+            for level in tree_list:
+                for node in level:
+                    node.cache = node.var
             continue
 
         if not any(tree_list[0][0].cache.reshape(-1)):  # 如果全是0，无法收敛且无意义
-- 
2.43.0


From 43ec1e1ba6ca7862a95dba3fea3f080bf53675d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:15 +0000
Subject: [PATCH 62/69] fix: even spacing is judged relative to the step, in
 any unit

---
 kd/model/discover/adapter.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/kd/model/discover/adapter.py b/kd/model/discover/adapter.py
index 18d593c..fac9c21 100644
--- a/kd/model/discover/adapter.py
+++ b/kd/model/discover/adapter.py
@@ -18,10 +18,16 @@ _MAX_SPATIAL_DIM = 3
 _MIN_SPATIAL_POINTS = 4
 
 
+def _evenly_spaced(steps: np.ndarray) -> bool:
+    """Whether all steps are equal, in whatever unit the coordinate is given."""
+    return not steps.size or np.allclose(
+        steps, steps[0], atol=min(1e-8, 1e-3 * abs(steps[0]))
+    )
+
+
 def _require_even_spacing(axis_name: str, coord: np.ndarray) -> None:
     """The finite-difference operators use one spacing for the whole axis."""
-    steps = np.diff(coord)
-    if steps.size and not np.allclose(steps, steps[0]):
+    if not _evenly_spaced(np.diff(coord)):
         raise ValueError(
             f"Spatial axis '{axis_name}' must be evenly spaced "
             "for finite-difference evaluation"
@@ -119,7 +125,7 @@ class DiscoverRegularAdapter:
 
         # Ensure evenly spaced time grid when requested.
         dt = np.diff(t)
-        if self.enforce_uniform_dt and not np.allclose(dt, dt[0]):
+        if self.enforce_uniform_dt and not _evenly_spaced(dt):
             raise ValueError("Time grid must be evenly spaced for finite-difference evaluation")
         delta_t = float(dt[0])
         if delta_t == 0.0:
@@ -222,7 +228,7 @@ class DiscoverRegularAdapter:
                 )
             coord = coords_1d[axis_name]
             dx_vals = np.diff(coord)
-            if np.any(np.isclose(dx_vals, 0.0)):
+            if np.any(dx_vals == 0.0):
                 raise ValueError(
                     f"Spatial axis '{axis_name}' has zero spacing "
                     f"between consecutive points"
@@ -239,7 +245,7 @@ class DiscoverRegularAdapter:
             )
 
         dt = np.diff(t_coord)
-        if self.enforce_uniform_dt and not np.allclose(dt, dt[0]):
+        if self.enforce_uniform_dt and not _evenly_spaced(dt):
             raise ValueError(
                 f"Grid along '{lhs_axis}' must be evenly spaced "
                 "for finite-difference evaluation"
-- 
2.43.0


From c302888a38193076476bb293e565dcdc03f2739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:15 +0000
Subject: [PATCH 63/69] fix: a genetic-search grid in small units must be
 evenly spaced too

---
 kd/model/sga/sgapde/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 2a8de7d..7708910 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -379,7 +379,8 @@ class ProblemContext:
                 if coord.size < 2:
                     continue
                 diffs = np.diff(coord)
-                if not np.allclose(diffs, diffs[0]):
+                # relative to the step, in whatever unit the axis is given
+                if not np.allclose(diffs, diffs[0], atol=min(1e-8, 1e-3 * abs(diffs[0]))):
                     raise ValueError(
                         "Structured grid requires uniform spacing for axis "
                         f"'{axis}'."
-- 
2.43.0


From 805a9a76783f4b6c5f7afd5d91e9922105f7b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:15 +0000
Subject: [PATCH 64/69] fix: a small varying parameter field is not taken for a
 constant

---
 kd/model/discover/task/pde/pde_pinn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/task/pde/pde_pinn.py b/kd/model/discover/task/pde/pde_pinn.py
index e86d3f3..4e34cef 100644
--- a/kd/model/discover/task/pde/pde_pinn.py
+++ b/kd/model/discover/task/pde/pde_pinn.py
@@ -129,7 +129,7 @@ class PDEPINNTask(PDETask):
             if token.param_var is None or token.param_var >= len(self._param_fields_raw):
                 continue
             raw = self._param_fields_raw[token.param_var]
-            if not np.allclose(raw, raw.flat[0]):
+            if not np.allclose(raw, raw.flat[0], atol=0.0):
                 raise NotImplementedError(
                     f"Spatially-varying param '{token.name}' not supported "
                     "in PINN mode. Use constant parameters or Regular mode."
-- 
2.43.0


From 4a44683f29cb20397dcf0a21e243114a9fb6687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:19 +0000
Subject: [PATCH 65/69] fix: SPR field comparison keeps other time bins' points
 out of the last one

np.isclose compares with an absolute tolerance of 1e-8 and a relative one of
1e-5: with times in small units or with a large offset, points of every bin
were close to the last edge and were interpolated into the last panel.
---
 kd/viz/_adapters/discover.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index a8238e8..4da3364 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -736,7 +736,8 @@ class DiscoverVizAdapter:
         for i in range(n_t_bins):
             mask = (t >= t_edges[i]) & (t < t_edges[i + 1])
             if i == n_t_bins - 1:
-                mask = mask | np.isclose(t, t_edges[i + 1])
+                # Close the last bin; exact, so no other bin's points leak in
+                mask = mask | (t == t_edges[i + 1])
             if mask.sum() < 4:
                 true_grids.append(np.full_like(grid_s0, np.nan))
                 pred_grids.append(np.full_like(grid_s0, np.nan))
-- 
2.43.0


From 3194e9736eceb5c4d69759ca116dc9a51b8f59c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:52 +0000
Subject: [PATCH 66/69] fix: equations with a parameter constrain the surrogate
 network

In network-assisted mode a (constant) parameter is bound at the metadata
points, of which the outermost are cut. The equation's residual is evaluated
at all collocation points and at the observations, where the shapes differed:
the term silently counted as 0 and the network was trained towards another
equation than the one found.
---
 kd/model/discover/execute.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kd/model/discover/execute.py b/kd/model/discover/execute.py
index ae399fb..8a5c6b0 100644
--- a/kd/model/discover/execute.py
+++ b/kd/model/discover/execute.py
@@ -80,6 +80,10 @@ def python_execute_torch(traversal, u, x):
 
             elif token.param_var is not None:
                 intermediate_result = token._param_data_ref
+                n_points = len(u[0] if isinstance(u, list) else u)
+                if torch.is_tensor(intermediate_result) and len(intermediate_result) != n_points:
+                    # constant, but bound at other points than those evaluated here
+                    intermediate_result = intermediate_result[:1].expand(n_points, -1)
             elif token.state_var is not None:
                 if isinstance(u, list):
                     
-- 
2.43.0


From 08f9f5874045ef293a631471dd8e305216d478b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:52 +0000
Subject: [PATCH 67/69] fix: network training with losses above 1e8

Fields in large units (a pressure in Pa) have a mean squared error above the
1e8 that the best loss started from: pretraining kept no checkpoint and the
last round stopped with UnboundLocalError on last_improvement.
---
 kd/model/discover/pinn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index 9c360da..9309e0c 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -231,7 +231,7 @@ class PINN_model:
         return loss
     
     def pretrain(self):
-        best_loss = 1e8
+        best_loss = float('inf')
         last_improvement=0
         if self.pretrain_path_load is not None:
             self.load_model(self.pretrain_path_load)
@@ -296,7 +296,8 @@ class PINN_model:
             program_pde[i].switch_tokens()
         if last:
             # self.pinn_epoch *=3
-            best_loss = 1e8
+            best_loss = float('inf')
+            last_improvement = 0
 
         logging.info(f"coef:{coef}")
         if local_sample:
-- 
2.43.0


From 218d069ee5e4a5b7b0ab948d1b1ffb606a8b4631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:52 +0000
Subject: [PATCH 68/69] fix: the best checkpoint of the last round holds the
 network with the best loss

It was written after the optimizer step that followed the evaluation, so it
held the weights of the next epoch, whose loss can be anything.
---
 kd/model/discover/pinn.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index 9309e0c..e700b0e 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -326,6 +326,11 @@ class PINN_model:
                 
                 
             loss = coef*(pde_loss)+loss_mse  #delete res3
+            if last and loss.item() < best_loss:
+                # before the step: these are the weights that have this loss
+                best_loss = loss.item()
+                last_improvement = epoch
+                torch.save(self.nn.state_dict(), self.pinn_path+f'{count}_best.ckpt')
             loss.backward()
             self.optimizer.step()
             
@@ -340,11 +345,6 @@ class PINN_model:
             # }, self.cur_epoch+epoch)
             
             if last:
-                if loss.item()< best_loss:
-                    best_loss = loss.item()
-                    last_improvement=epoch
-                    torch.save(self.nn.state_dict(), self.pinn_path+f'{count}_best.ckpt')
-                
                 if epoch-last_improvement>200:
                     break
         if hasattr(self,'x_star'):
-- 
2.43.0


From baff65b35c1c4c1509a9c54aa594c2477f3fab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:56 +0000
Subject: [PATCH 69/69] fix: the sampler carries its recurrent state from token
 to token

---
 kd/model/discover/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/controller.py b/kd/model/discover/controller.py
index fd2e995..dd6d2e4 100644
--- a/kd/model/discover/controller.py
+++ b/kd/model/discover/controller.py
@@ -391,7 +391,7 @@ class Controller(object):
             
             (output, cell_state) = self.cell(next_input, state)
             time = time + 1
-            (finished, next_input, next_state, emit, loop_state) = self.loop_fn(time, \
+            (finished, next_input, state, emit, loop_state) = self.loop_fn(time, \
                 cell_output=output, cell_state=cell_state, loop_state=loop_state)
 
         actions_ta, obs_ta, priors_ta, next_obs, next_prior, next_lengths, next_finished =loop_state
-- 
2.43.0


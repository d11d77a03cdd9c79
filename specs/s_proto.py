"""Reference choreography for C03: one global description of every exchange.

Each function is written once for both parties.  `guest` is the constant True or
False; specialising a choreography to it gives that party's own run, so the two
runs agree message by message by construction: a value exchanged by `share` is
what the guest sent and what the host received, and every decision below is
taken from shared values or from configuration common to both.
"""
from ml.tree.node import Node
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost


def share(self, guest, data):
    """guest to every host"""
    if guest:
        self.transfer_inst.send_data_to_hosts(data, -1)
        return data
    return self.transfer_inst.recv_data_from_guest()


def gather(self, guest, data):
    """every host to the guest"""
    if guest:
        return self.transfer_inst.recv_data_from_hosts(-1)
    self.transfer_inst.send_data_to_guest(data)


def reply(self, guest, asked):
    """one message to each host that asked, in their order"""
    if guest:
        for i in range(len(asked)):
            self.transfer_inst.send_data_to_hosts(object(), i)
    else:
        self.transfer_inst.recv_data_from_guest()


def tree_fit(self, guest):
    share(self, guest, object())                            # encrypted gradients
    if guest:
        self.tree_node_queue = [Node()]
    for dep in range(self.max_depth):
        queue = share(self, guest, self.tree_node_queue)
        if len(queue) == 0:
            break
        share(self, guest, object())                        # positions of the samples
        for i in range(0, len(queue), self.max_split_nodes):
            asked = gather(self, guest, object())           # candidate splits of the hosts
            reply(self, guest, asked)                       # the best one of each
            gather(self, guest, object())                   # its owner's record
        if guest:
            self.update_tree_node_queue(None, False)
        share(self, guest, object())                        # samples to route
        gather(self, guest, object())                       # where they went
    share(self, guest, object())                            # the tree


def tree_fit_guest(self):
    tree_fit(self, True)


def tree_fit_host(self):
    tree_fit(self, False)


def tree_predict(self, guest, data):
    while True:
        done = share(self, guest, data.count() == 0)        # no sample is below an inner node
        if done is True:
            break
        share(self, guest, object())
        gather(self, guest, object())


def tree_predict_guest(self, data):
    tree_predict(self, True, data)


def tree_predict_host(self, data):
    tree_predict(self, False, data)


def boost_fit(self, guest, new_tree):
    if guest:
        self.set_y()
    dim = share(self, guest, self.tree_dim)
    for i in range(self.num_trees):
        for k in range(dim):
            tree = new_tree(self.tree_param)
            tree.set_transfer_inst(self.transfer_inst)
            tree.fit()
        if self.n_iter_no_change is True:
            stop = share(self, guest, self.check_convergence(0)) if guest else share(self, guest, None)
            if stop:
                break


def boost_fit_guest(self, data):
    boost_fit(self, True, HeteroDecisionTreeGuest)


def boost_fit_host(self, data):
    boost_fit(self, False, HeteroDecisionTreeHost)


def boost_predict(self, data, new_tree):
    for i in range(len(self.trees_) // self.tree_dim):
        for k in range(self.tree_dim):
            tree = new_tree(self.tree_param)
            tree.set_transfer_inst(self.transfer_inst)
            tree.predict(data)


def boost_predict_guest(self, data):
    boost_predict(self, data, HeteroDecisionTreeGuest)


def boost_predict_host(self, data):
    boost_predict(self, data, HeteroDecisionTreeHost)


def trees_kept(self, guest, new_tree):
    """one tree is kept for each tree that is trained"""
    if guest:
        self.set_y()
    dim = share(self, guest, self.tree_dim)
    for i in range(self.num_trees):
        for k in range(dim):
            self.trees_.append(new_tree(self.tree_param).get_model()[1])
        if self.n_iter_no_change is True:
            stop = share(self, guest, self.check_convergence(0)) if guest else share(self, guest, None)
            if stop:
                break


def trees_kept_guest(self, data):
    trees_kept(self, True, HeteroDecisionTreeGuest)


def trees_kept_host(self, data):
    trees_kept(self, False, HeteroDecisionTreeHost)

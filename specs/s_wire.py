"""Reference definitions for C01 and C02: addressing of hosts."""
from federation.transfer_inst import TransferInst
from computing.d_table import DTable


def send_hosts(self, data, index):
    n = len(self.conns)
    if index != -1 and (index < 0 or index >= n):
        raise ValueError("index")
    if index == -1:
        for c in self.conns:
            TransferInst.send_data(c, data)
    else:
        TransferInst.send_data(self.conns[index], data)


def recv_hosts(self, index):
    n = len(self.conns)
    if index != -1 and (index < 0 or index >= n):
        raise ValueError("index")
    if index == -1:
        return [TransferInst.recv_data(c) for c in self.conns]
    return TransferInst.recv_data(self.conns[index])


def send_guest(self, data):
    TransferInst.send_data(self.client_socket, data)


def recv_guest(self):
    return TransferInst.recv_data(self.client_socket)


def new_guest(self, port=12345, conn_num=1):
    self.conns = []
    for k in range(conn_num):
        s, a = self.server_socket.accept()
        self.conns.append(s)


def replies(self, dep=-1, batch=-1):
    got = self.transfer_inst.recv_data_from_hosts(-1)
    for i in range(len(got)):
        t = DTable(False, list(zip(self.cur_split_nodes, got[i])))
        best = [v for k, v in t.mapValues(lambda s: self.find_host_split(s)).collect()]
        self.transfer_inst.send_data_to_hosts(best, i)


def final_splits(self, dep=-1, batch=-1):
    return self.transfer_inst.recv_data_from_hosts(-1)

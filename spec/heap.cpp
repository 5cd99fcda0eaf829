// Reference semantics of Heap (C05, C06).
#include <cstdlib>
#include <vector>
#include "Heap.h"
namespace slsm { namespace spec {

void Heap_ctor(Heap& self, unsigned int n, bool t)
{
    self.maxLength = n; self.isTest = t; self.heapLength = 0; self.listLength = 0;
    self.distance.resize(n); self.heap.resize(n); self.address.resize(n); self.backPointer.resize(n);
}
unsigned int Heap_push(Heap& self, unsigned int addr, double v)
{
    if (self.heapLength >= self.maxLength) std::exit(EXIT_FAILURE);
    unsigned int item = self.listLength;
    if (item == self.address.size())        // room for a new handle
    {
        self.address.push_back(0);
        self.distance.push_back(0);
        self.backPointer.push_back(0);
    }
    self.heap[self.heapLength] = item;
    self.address[item] = addr;
    self.distance[item] = v;
    self.backPointer[item] = self.heapLength;
    self.heapLength++;
    self.listLength = item + 1;
    self.siftDown(0, self.heapLength-1);
    return item;
}
void Heap_pop(Heap& self, unsigned int& addr, double& v)
{
    if (self.heapLength == 0) std::exit(EXIT_FAILURE);
    unsigned int top = self.heap[0];
    addr = self.address[top];
    v = self.distance[top];
    unsigned int last = self.heap[self.heapLength-1];
    self.heap[0] = last;
    self.backPointer[last] = 0;
    self.heapLength--;
    self.siftUp(0);
}
void Heap_siftDown(Heap& self, unsigned int start, unsigned int pos)
{
    unsigned int item = self.heap[pos];
    while (pos > start)
    {
        unsigned int pp = (pos-1)/2;
        unsigned int parent = self.heap[pp];
        if (!(self.distance[item] < self.distance[parent])) break;
        self.heap[pos] = parent;
        self.backPointer[parent] = pos;
        pos = pp;
    }
    self.heap[pos] = item;
    self.backPointer[item] = pos;
}
void Heap_siftUp(Heap& self, unsigned int pos)
{
    unsigned int start = pos, item = self.heap[pos];
    unsigned int child = 2*pos + 1;
    while (child < self.heapLength)
    {
        unsigned int right = child + 1;
        if (right < self.heapLength && self.distance[self.heap[right]] < self.distance[self.heap[child]]) child = right;
        self.heap[pos] = self.heap[child];
        self.backPointer[self.heap[child]] = pos;
        pos = child;
        child = 2*pos + 1;
    }
    self.heap[pos] = item;
    self.siftDown(start, pos);
}
void Heap_set(Heap& self, unsigned int index, double v)
{
    double old = self.distance[index];
    self.distance[index] = v;
    unsigned int pos = self.backPointer[index];
    if (v > old) self.siftUp(pos);
    if (self.distance[self.heap[pos]] == v) self.siftDown(0, pos);
}
bool Heap_empty(const Heap& self) { return self.heapLength == 0; }
double Heap_peek(const Heap& self)
{
    if (self.heapLength == 0) std::exit(EXIT_FAILURE);
    return self.distance[self.heap[0]];
}
// completes exactly if every child is at least its parent and every back pointer names its slot
void Heap_test(const Heap& self)
{
    for (unsigned int i = 0; i < self.heapLength; i++)
        for (unsigned int j = 0; j < 2; j++)
        {
            unsigned int child = 2*i + 1 + j;
            if (child >= self.heapLength) continue;
            if (!(self.distance[self.heap[i]] <= self.distance[self.heap[child]])) std::exit(EXIT_FAILURE);
        }
    for (unsigned int i = 0; i < self.heapLength; i++)
        if (self.backPointer[self.heap[i]] != i) std::exit(EXIT_FAILURE);
}
// the same, seen from the children
void Heap_test_up(const Heap& self)
{
    for (unsigned int i = 1; i < self.heapLength; i++)
        if (!(self.distance[self.heap[(i - 1) / 2]] <= self.distance[self.heap[i]])) std::exit(EXIT_FAILURE);
    for (unsigned int i = 0; i < self.heapLength; i++)
        if (self.backPointer[self.heap[i]] != i) std::exit(EXIT_FAILURE);
}
// parents only
void Heap_test_half(const Heap& self)
{
    for (unsigned int i = 0; 2*i + 1 < self.heapLength; i++)
    {
        if (!(self.distance[self.heap[i]] <= self.distance[self.heap[2*i + 1]])) std::exit(EXIT_FAILURE);
        if (2*i + 2 < self.heapLength && !(self.distance[self.heap[i]] <= self.distance[self.heap[2*i + 2]])) std::exit(EXIT_FAILURE);
    }
    for (unsigned int i = 0; i < self.heapLength; i++)
        if (self.backPointer[self.heap[i]] != i) std::exit(EXIT_FAILURE);
}
// one pass
void Heap_test_one(const Heap& self)
{
    for (unsigned int i = 0; i < self.heapLength; i++)
    {
        if (2*i + 1 < self.heapLength && !(self.distance[self.heap[i]] <= self.distance[self.heap[2*i + 1]])) std::exit(EXIT_FAILURE);
        if (2*i + 2 < self.heapLength && !(self.distance[self.heap[i]] <= self.distance[self.heap[2*i + 2]])) std::exit(EXIT_FAILURE);
        if (self.backPointer[self.heap[i]] != i) std::exit(EXIT_FAILURE);
    }
}
unsigned int Heap_size(const Heap& self) { return self.heapLength; }

}}

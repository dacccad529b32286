#include "kinds2.hpp"
namespace sim {
using namespace dstruct;
typedef SimAlloc<8> A8; typedef SimAlloc<9> A9;
#define LST(C, T, A, D, DBL) typedef C<T, A> L_##C##T; REG(kind<KList<L_##C##T, T, DBL> >(#C "<" #T "," #A ">", DBL ? "dlist" : "slist", sizeof(T), KF_HANDLES, D))
LST(SinglyLinkedList, int, A8, 8, false); LST(SinglyLinkedList, E24, dstruct::Alloc, DOM_DEFAULT, false); LST(SLinkedList, E56, A9, 9, false); LST(SinglyLinkedList, Tri, A8, 8, false);
LST(DoublyLinkedList, int, A9, 9, true); LST(DLinkedList, E24, A8, 8, true); LST(DoublyLinkedList, short, A8, 8, true); LST(DoublyLinkedList, E56, dstruct::Alloc, DOM_DEFAULT, true);
LST(SinglyLinkedList, M24, A9, 9, false); LST(DoublyLinkedList, M24, A9, 9, true); LST(SinglyLinkedList, A32, A8, 8, false); LST(DoublyLinkedList, A32, A8, 8, true);
}

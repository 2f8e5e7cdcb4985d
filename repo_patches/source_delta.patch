From 1a0045dad0fc102001f370bbf07810e4f3d7366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 01/93] fix: marray::swap could not be called

Its exception specification asked whether two rvalue allocators can be swapped,
which does not compile.
---
 include/nuSQuIDS/marray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 65a5f86..5178bb0 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -914,13 +914,13 @@ public:
 	//TODO: noexcept condition is wrong if swap(allocator_type&,allocator_type&) is found via ADL
 	///Swap contents with another array
 	void swap(marray& other)
-	noexcept(!allocator_traits::propagate_on_container_swap::value || noexcept(std::swap(std::declval<allocator_type>(),std::declval<allocator_type>())))
+	noexcept(!allocator_traits::propagate_on_container_swap::value || noexcept(std::swap(std::declval<allocator_type&>(),std::declval<allocator_type&>())))
 	{
 		using std::swap;
 		for(unsigned int i=0; i<Rank; i++)
 			swap(extents[i],other.extents[i]);
 		swap(total_size(),other.total_size());
-		swap_allocator(other.allocator(),allocator_traits::propagate_on_container_swap());
+		swap_allocator(other.allocator(),typename allocator_traits::propagate_on_container_swap());
 		swap(data,other.data);
 	}
 	
-- 
2.43.0


From c5de2df512924804b8d64a8b3d58cf23d4a7dfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 02/93] fix: dividing by a marray computed the reciprocal
 quotient

scalar/array returned array/scalar, and the overload also took array/array with
a modifiable right operand.
---
 include/nuSQuIDS/marray.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 5178bb0..b1cb928 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1587,9 +1587,12 @@ typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
 marray<T,Rank> operator/(marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)/=f);
 }
-template<typename T, unsigned Rank, typename U>
+template<typename T, unsigned Rank, typename U,
+typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
 marray<T,Rank> operator/(const U& f, marray<T,Rank>& a){
-	return(marray<T,Rank>(a)/=f);
+	marray<T,Rank> r(a);
+	for(auto& i : r) i=f/i;
+	return(r);
 }
 
 namespace detail{
-- 
2.43.0


From a98360a827731f050954ce411df06c9490eb9303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 03/93] fix: back() of a const marray returned the last index,
 not the last element

---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index b1cb928..6b525dd 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1287,7 +1287,7 @@ public:
 	reference front(){ return(data[0]); }
 	const_reference front() const { return(data[0]); }
 	reference back(){ return(data[size()-1]); }
-	const_reference back() const { return(size()-1); }
+	const_reference back() const { return(data[size()-1]); }
 	
 	///Get the allocator currently used by the array
 	allocator_type get_allocator() const{ return(allocator()); }
-- 
2.43.0


From 2a12ff15db05fa873636eac30f7b92b7025f6f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 04/93] fix: marray constructors from values leaked or assigned
 to raw memory

The constructor from an iterator range assigned to objects which had not been
constructed, and both constructors kept their memory when they refused their input.
---
 include/nuSQuIDS/marray.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 6b525dd..0362e53 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -729,11 +729,10 @@ public:
 	data(total_size()?allocator_traits::allocate(allocator(),total_size()):nullptr){
 		std::copy(dims.begin(),dims.end(),extents.begin());
 		
-		//ensure that the initializer has the correct shape
-		detail::initializer_shape_checker<value_type,Rank,Rank>::check(extents,init,0);
-		
 		pointer write_pos=data;
 		try{
+			//ensure that the initializer has the correct shape
+			detail::initializer_shape_checker<value_type,Rank,Rank>::check(extents,init,0);
 			detail::multidimensional_initializer<value_type,Rank,allocator_type,Rank>::initialize(init,allocator(),write_pos);
 		}catch(...){
 			for(pointer p=data; p!=write_pos; p++)
@@ -759,13 +758,12 @@ public:
 	data(total_size()?allocator_traits::allocate(allocator(),total_size()):nullptr){
 		std::copy(dims.begin(),dims.end(),extents.begin());
 		
-		if(std::distance(init_begin,init_end)!=total_size())
-			throw std::logic_error("Iterator range has wrong size to initialize marray");
-		
 		pointer write_pos=data;
 		try{
+			if(std::distance(init_begin,init_end)!=total_size())
+				throw std::logic_error("Iterator range has wrong size to initialize marray");
 			for(; init_begin!=init_end; init_begin++, write_pos++)
-				*write_pos = *init_begin;
+				allocator_traits::construct(allocator(),write_pos,*init_begin);
 		}catch(...){
 			for(pointer p=data; p!=write_pos; p++)
 				allocator_traits::destroy(allocator(),p);
-- 
2.43.0


From 280f199983be056049af4e35dbb4ad2d77cc7b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 05/93] fix: marray assignment gave memory back wrongly when
 copying an element threw

The new buffer was deallocated with the size of the old one, and with the wrong
allocator when allocators propagate.
---
 include/nuSQuIDS/marray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 0362e53..434af39 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -486,7 +486,7 @@ private:
 		try{
 			copy_init_buffer(new_data,other.total_size(),new_allocator,other.data); //may throw
 		}catch(...){
-			allocator_traits::deallocate(allocator(),new_data,total_size());
+			allocator_traits::deallocate(new_allocator,new_data,other.total_size());
 			throw;
 		}
 		//----
@@ -499,7 +499,7 @@ private:
 		try{
 			copy_init_buffer(new_data,other.total_size(),allocator(),other.data); //may throw
 		}catch(...){
-			allocator_traits::deallocate(allocator(),new_data,total_size());
+			allocator_traits::deallocate(allocator(),new_data,other.total_size());
 			throw;
 		}
 		//----
@@ -526,7 +526,7 @@ private:
 			try{
 				copy_init_buffer(new_data,other.total_size(),allocator(),other.data); //may throw
 			}catch(...){
-				allocator_traits::deallocate(allocator(),new_data,total_size());
+				allocator_traits::deallocate(allocator(),new_data,other.total_size());
 				throw;
 			}
 			//----
-- 
2.43.0


From 04809aaf5f1451464b255467a5099a0cc4e6723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 06/93] fix: marray move assignment left the old buffer with
 the wrong allocator

The buffers are exchanged, so the allocators they came from have to be as well.
---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 434af39..593300a 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -512,7 +512,7 @@ private:
 		swap(extents,other.extents);
 		swap(data,other.data);
 		swap(total_size(),other.total_size());
-		allocator()=std::move(other.allocator());
+		swap(allocator(),other.allocator());
 	}
 	void move_assign(marray&& other, std::false_type dont_replace_allocator){
 		using std::swap;
-- 
2.43.0


From eeec7b4eae197d4af95454256b504b417cdfa788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 07/93] fix: marray computed sizes and offsets modulo 2^32

std::accumulate works in the type of its initial value, which was an int or unsigned.
---
 include/nuSQuIDS/marray.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 593300a..1fe31cb 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -846,7 +846,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -862,7 +862,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -880,7 +880,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -898,7 +898,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -945,9 +945,9 @@ public:
 private:
 	void insert(size_type dim, size_type pos, size_t num, value_type val, std::true_type move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-pos;
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]+num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1002,9 +1002,9 @@ private:
 	
 	void insert(size_type dim, size_type pos, size_t num, value_type val, std::false_type dont_move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-pos;
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]+num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1056,9 +1056,9 @@ public:
 private:
 	void erase(size_type dim, size_type pos, size_t num, std::true_type move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1082,9 +1082,9 @@ private:
 	
 	void erase(size_type dim, size_type pos, size_t num, std::false_type dont_move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1125,9 +1125,9 @@ public:
 		assert(pos+num<=extents[dim]);
 		
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1168,7 +1168,7 @@ public:
 	void reshape(const Container& new_extents){
 		if(std::distance(std::begin(new_extents),std::end(new_extents))!=Rank)
 			throw std::logic_error("Incorrect number of dimensions when attempting to reshape multidimensional array");
-		size_type new_total_size=std::accumulate(new_extents.begin(),new_extents.end(),1u,std::multiplies<size_type>());
+		size_type new_total_size=std::accumulate(new_extents.begin(),new_extents.end(),size_type(1),std::multiplies<size_type>());
 		if(new_total_size!=total_size())
 			throw std::logic_error("Inconsistent total size when attempting to reshape multidimensional array");
 		std::copy_n(std::begin(new_extents),Rank,extents.begin());
-- 
2.43.0


From 1acdcd1324b3b4275bb4c432d370d3114127b1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 08/93] fix: atan2, pow and hypot of marrays of the same type
 did not compile

---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 1fe31cb..7aab782 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1938,7 +1938,7 @@ template<typename T, unsigned Rank> \
 marray<T,Rank> fname(const marray<T,Rank>& a1, const marray<T,Rank>& a2){ \
 	if(a1.get_extents()==a2.get_extents()){ \
 		marray<T,Rank> result(a1); \
-		for(auto ri=result.begin(),i1=a1.begin(),i2=a2.begin(),re=result.end; \
+		for(auto ri=result.begin(),i1=a1.begin(),i2=a2.begin(),re=result.end(); \
 			ri!=re; ri++,i1++,i2++) \
 			*ri=fname(*i1,*i2); \
 		return(result); \
-- 
2.43.0


From 820455716666e17fff8a04d3f987c5a240216e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 09/93] fix: misspelled tgamma for marrays

---
 include/nuSQuIDS/marray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 7aab782..e7caa77 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1872,6 +1872,7 @@ using std::sqrt;
 using std::cbrt;
 using std::erf;
 using std::erfc;
+using std::tgamma;
 using std::lgamma;
 using std::ceil;
 using std::floor;
@@ -1912,7 +1913,7 @@ UNARY_MARRAY_FUNC(sqrt);
 UNARY_MARRAY_FUNC(cbrt);
 UNARY_MARRAY_FUNC(erf);
 UNARY_MARRAY_FUNC(erfc);
-UNARY_MARRAY_FUNC(tgmama);
+UNARY_MARRAY_FUNC(tgamma);
 UNARY_MARRAY_FUNC(lgamma);
 UNARY_MARRAY_FUNC(ceil);
 UNARY_MARRAY_FUNC(floor);
-- 
2.43.0


From 7352203c1e3b63578ad2c58815fff35b442d5854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 10/93] fix: marray iterators could not be moved back with it-n

The difference of two iterators hid it, so std::sort and other algorithms on
random access iterators did not compile.
---
 include/nuSQuIDS/marray.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index e7caa77..cf87109 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -581,6 +581,7 @@ public:
 		using base_type::base_type;
 		using difference_type=typename base_type::difference_type;
 		using pointer=typename base_type::pointer;
+		using base_type::operator-;
 		difference_type operator-(const iterator_type& other) const{
 			return(this->ptr-other.ptr);
 		}
@@ -612,6 +613,7 @@ public:
 		using base_type::base_type;
 		using difference_type=typename base_type::difference_type;
 		using pointer=typename base_type::pointer;
+		using base_type::operator-;
 		difference_type operator-(const reverse_iterator_type& other) const{
 			return(other.ptr-this->ptr);
 		}
-- 
2.43.0


From 9783c6610f5a3f74c207d319ed7ca8c796642b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 11/93] fix: marray construction from values destroyed an
 element it had failed to construct

---
 include/nuSQuIDS/marray.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index cf87109..6869593 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -349,8 +349,10 @@ struct multidimensional_initializer{
 template<typename T, unsigned int Rank, typename Allocator>
 struct multidimensional_initializer<T,Rank,Allocator,1>{
 	static void initialize(const typename detail::initializer_for_rank<T,1>::type& init, Allocator& alloc, T*& write_ptr){
-		for(const auto& i : init)
-			std::allocator_traits<Allocator>::construct(alloc,write_ptr++,i);
+		for(const auto& i : init){
+			std::allocator_traits<Allocator>::construct(alloc,write_ptr,i);
+			write_ptr++; //count the element only once it exists
+		}
 	}
 	static void assign(const typename detail::initializer_for_rank<T,1>::type& init, T*& write_ptr){
 		for(const auto& i : init)
-- 
2.43.0


From 46675134ec086a39bb912742d5602be88373a3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 12/93] fix: aligned_allocator returned the wrong memory for
 alignments of 256 or more

The distance back to the start of the allocation was stored in one byte.
---
 include/nuSQuIDS/aligned_alloc.h | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/nuSQuIDS/aligned_alloc.h b/include/nuSQuIDS/aligned_alloc.h
index 5d27366..5b67243 100644
--- a/include/nuSQuIDS/aligned_alloc.h
+++ b/include/nuSQuIDS/aligned_alloc.h
@@ -25,6 +25,7 @@
 #ifndef NUSQUIDS_ALIGNED_ALLOC_H
 #define NUSQUIDS_ALIGNED_ALLOC_H
 
+#include <cstring>
 #include <limits>
 
 //An allocator which allocates blocks aligned to 2^n bytes for a user selected n.
@@ -79,7 +80,7 @@ public:
 	
 	///\returns The largest value N for which the call allocate(N,0) might succeed.
 	size_type max_size(){
-		return((std::numeric_limits<size_type>::max()-get_align())/sizeof(T));
+		return((std::numeric_limits<size_type>::max()-get_align()-sizeof(size_type))/sizeof(T));
 	}
 	
 	template <class U, class... Args>
@@ -111,23 +112,26 @@ public:
 		
 		size_type needed=n*sizeof(T);
 		size_type alignment=get_align();
-		needed+=alignment; //include space to do our thing
+		needed+=alignment+sizeof(size_type); //include space to do our thing
 		
 		//try to get memory
 		void* ptr=new char[needed];
 		
 		//align!
-		uint8_t offset=alignment-reinterpret_cast<size_type>(ptr)%alignment;
 		//Note that since align is a power of 2, align-1 forms a mask with the low
-		//align_pow bits set. Its negation will then preserve only the higher bits
-		//of ptr, effectively flooring it to the nearest multiple of align. Adding
-		//align then preserves this alignment, and ensures that at least one byte 
-		//of padding is before ptr. 
+		//align_pow bits set. Its negation will then preserve only the higher bits,
+		//effectively flooring an address to the nearest multiple of align. The
+		//address floored is align-1 beyond the earliest one which leaves enough
+		//padding to stash the offset, so the result is never before that.
 		//This trick borrowed from Johan Mabille
 		//https://jmabille.github.io/blog/2014/12/06/aligned-memory-allocator/
-		ptr=reinterpret_cast<void*>((reinterpret_cast<size_type>(ptr) & ~(alignment-1))+alignment);
-		//Stash the offset in our guaranteed byte of padding where we can find it later
-		*((uint8_t*)ptr-1)=offset;
+		size_type start=reinterpret_cast<size_type>(ptr);
+		size_type aligned=(start+sizeof(size_type)+(alignment-1)) & ~(alignment-1);
+		size_type offset=aligned-start;
+		ptr=static_cast<char*>(ptr)+offset;
+		//Stash the offset in our guaranteed padding where we can find it later.
+		//It can be as large as the alignment, so a single byte is not enough.
+		std::memcpy(static_cast<char*>(ptr)-sizeof(size_type),&offset,sizeof(size_type));
 		
 		return(pointer(ptr));
 	}
@@ -136,9 +140,10 @@ public:
 		if(!p) //ignore NULL pointers
 			return;
 		
-		uint8_t* ptr=(uint8_t*)p;
+		char* ptr=(char*)p;
 		//find our stashed offset value
-		uint8_t offset=*(ptr-1);
+		size_type offset;
+		std::memcpy(&offset,ptr-sizeof(size_type),sizeof(size_type));
 		//recover the real pointer
 		ptr-=offset;
 		delete[] ptr;
-- 
2.43.0


From 5d120dff50f39a83ec7704c87baddd4041d3840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 13/93] fix: TriCubicInterpolator took its y-z cross derivative
 from the wrong spline

---
 src/tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 75788f0..701c745 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -569,7 +569,7 @@ d3fdxdydz(data.get_extents(),nusquids::detail::no_init)
 			spline.initialize(ycoords.get_data(),yslice.get_data(),jMax);
 			spline.getAbscissaDerivatives(yslice);
 			for(std::size_t j=0; j!=jMax; j++)
-				d2fdydz[k][j][i]=xslice[j];
+				d2fdydz[k][j][i]=yslice[j];
 		}
 	}
 	
-- 
2.43.0


From 4664e023b3af4ab0f498021804be5d06370bca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 14/93] fix: quickread lost its columns to lines without
 numbers

---
 src/tools.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 701c745..b23becd 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -51,7 +51,7 @@ marray<double,2> quickread(std::string filepath){
 
     std::vector< std::vector<double> > table;
     std::string line;
-    size_t column_number = -1;
+    size_t column_number = 0;
     while(getline(infile,line)){
         std::vector<double> row;
         std::stringstream linestream(line);
@@ -67,9 +67,8 @@ marray<double,2> quickread(std::string filepath){
             if(!table.empty() and column_number != row.size())
               throw std::runtime_error("nuSQuIDS::tools::quickread: Number of columns in file not equal.");
             table.push_back(row);
+            column_number = row.size();
         }
-
-        column_number = row.size();
     }
 
     marray<double,2> otable {table.size(),column_number};
-- 
2.43.0


From 3dcac01aff952912ce7f003b2cfa866f4a05f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 15/93] fix: string attributes leaked their type and did not
 keep the empty string

---
 src/tools.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index b23becd..0850065 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -807,13 +807,15 @@ bool h5ObjectExists(hid_t loc_id, const char* name){
 template<>
 void addH5Attribute<std::string>(hid_t object, std::string name, const std::string& contents){
     hid_t strtype = H5Tcopy(H5T_C_S1);
-    H5Tset_size(strtype, contents.size());
+    //an HDF5 string cannot have size zero, so the empty string is stored as one null
+    H5Tset_size(strtype, std::max<size_t>(contents.size(),1));
     hsize_t dim=1;
     hid_t dataspace_id = H5Screate_simple(1, &dim, nullptr);
     hid_t attribute_id = H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
     H5Awrite(attribute_id, strtype, &contents[0]);
     H5Aclose(attribute_id);
     H5Sclose(dataspace_id);
+    H5Tclose(strtype);
 };
 
 template<>
@@ -836,6 +838,9 @@ void readH5Attribute<std::string>(hid_t object, std::string name, std::string& d
         throw std::runtime_error("Failed to read attribute '"+name+"'");
     }
     
+    //remove null padding
+    dest.erase(dest.find_last_not_of('\0')+1);
+    
     H5Aclose(attribute_id);
     H5Tclose(actualType);
 }
-- 
2.43.0


From a8ec926199a4edcb62f35f2c3f98a97d1ede2a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 16/93] fix: readArrayH5 left the dataset open when the rank
 did not match

---
 include/nuSQuIDS/tools.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 8ffef6a..94284c6 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -366,10 +366,13 @@ void readArrayH5(hid_t container, const std::string& name, marray<T,Rank,Alloc>&
     hid_t dType=h5Datatype<T>::type();
     hid_t dSpace = H5Dget_space(array_id);
     int raw_dim = H5Sget_simple_extent_ndims(dSpace);
-    if(raw_dim!=Rank)
+    if(raw_dim!=Rank){
+        H5Sclose(dSpace);
+        H5Dclose(array_id);
         throw std::runtime_error("Failed to read marray from HDF5: source array has rank "
                                  +std::to_string(raw_dim)+" but target array has rank "
                                  +std::to_string(Rank));
+    }
     std::array<hsize_t,Rank> extents;
     H5Sget_simple_extent_dims(dSpace,&extents[0],nullptr);
     H5Sclose(dSpace);
-- 
2.43.0


From 009ad952d57220809fb20011c6073702ac2653e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 17/93] fix: empty arrays could not be written to or read from
 HDF5 safely

---
 include/nuSQuIDS/tools.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 94284c6..d2cbc5a 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -323,6 +323,8 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
     std::copy_n(data.get_extents().begin(),Rank,extents.begin());
     hid_t dSpace=H5Screate_simple(Rank, &extents[0], nullptr);
     hid_t plist_id=H5P_DEFAULT;
+    if(data.empty()) //there is nothing to compress, and HDF5 has no empty chunks
+        compressLevel=0;
     if(compressLevel){
         assert(compressLevel<=9);
         plist_id = H5Pcreate(H5P_DATASET_CREATE);
@@ -345,7 +347,7 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
     }
     
     hid_t dSet=H5Dcreate(loc_id, name.c_str(),destType,dSpace,H5P_DEFAULT,plist_id,H5P_DEFAULT);
-    herr_t err=H5Dwrite(dSet,sourceType,H5S_ALL,H5S_ALL,H5P_DEFAULT,&data.front());
+    herr_t err=H5Dwrite(dSet,sourceType,H5S_ALL,H5S_ALL,H5P_DEFAULT,data.get_data());
     
     //need to close whether or not there's an error
     if(compressLevel)
@@ -377,7 +379,7 @@ void readArrayH5(hid_t container, const std::string& name, marray<T,Rank,Alloc>&
     H5Sget_simple_extent_dims(dSpace,&extents[0],nullptr);
     H5Sclose(dSpace);
     data.resize(extents);
-    herr_t err=H5Dread(array_id,dType,H5S_ALL,H5S_ALL,H5P_DEFAULT,&data.front());
+    herr_t err=H5Dread(array_id,dType,H5S_ALL,H5S_ALL,H5P_DEFAULT,data.get_data());
     H5Dclose(array_id);
     if(err<0)
         throw std::runtime_error("Failed to array data from HDF5");
-- 
2.43.0


From fa2de7ffa9cbdfce6bf26c52690539f03b6c6071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 18/93] fix: AdaptiveQuad confused the known end point values
 of reversed intervals

---
 include/nuSQuIDS/AdaptiveQuad.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/nuSQuIDS/AdaptiveQuad.h b/include/nuSQuIDS/AdaptiveQuad.h
index 479e83e..5e5bb96 100644
--- a/include/nuSQuIDS/AdaptiveQuad.h
+++ b/include/nuSQuIDS/AdaptiveQuad.h
@@ -190,18 +190,21 @@ namespace AdaptiveQuad{
 		}
 		
 		//compute function endpoint values if not given
+		//the options refer to the end points in the order given by the caller
 		double fa,fb;
-		if(options && !std::isnan(options->fa))
-			fa=options->fa;
+		double* known_fa=options?(reverse?&options->fb:&options->fa):nullptr;
+		double* known_fb=options?(reverse?&options->fa:&options->fb):nullptr;
+		if(known_fa && !std::isnan(*known_fa))
+			fa=*known_fa;
 		else{
 			fa=integrand(a);
-			if(options) options->fa=fa;
+			if(known_fa) *known_fa=fa;
 		}
-		if(options && !std::isnan(options->fb))
-			fb=options->fb;
+		if(known_fb && !std::isnan(*known_fb))
+			fb=*known_fb;
 		else{
 			fb=integrand(b);
-			if(options) options->fb=fb;
+			if(known_fb) *known_fb=fb;
 		}
 		
 		//create initial interval with function endpoint values
-- 
2.43.0


From aabde698b9b6123028dbfe5f433007e5a4e87a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 19/93] fix: AdaptiveQuad reported narrow subintervals within
 tolerance as out of tolerance

---
 include/nuSQuIDS/AdaptiveQuad.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/AdaptiveQuad.h b/include/nuSQuIDS/AdaptiveQuad.h
index 5e5bb96..d61878a 100644
--- a/include/nuSQuIDS/AdaptiveQuad.h
+++ b/include/nuSQuIDS/AdaptiveQuad.h
@@ -261,9 +261,10 @@ namespace AdaptiveQuad{
 			//subdivide it further. If there is not, or subdivision is not 
 			//possible, commit its contribution to the total estimate. 
 			auto processSubinterval=[&](Interval& i){
-				if(i.badness(tol)<=0 || !i.canSubdivide()){
-					if(!i.canSubdivide())
-						outOfTolerance=true;
+				if(i.badness(tol)<=0)
+					accumulate(i.value,i.i2);
+				else if(!i.canSubdivide()){
+					outOfTolerance=true;
 					accumulate(i.value,i.i2);
 				}
 				else
-- 
2.43.0


From 008729ccf888a789895ea1d566fad6fe59f2474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 20/93] fix: serialising a body or track left an HDF5 data type
 open

---
 src/body.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/body.cpp b/src/body.cpp
index 96d6a0b..6d0a94a 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -59,6 +59,7 @@ void addStringAttribute(hid_t object, std::string name, std::string contents){
   H5Awrite(attribute_id, strtype, &contents[0]);
   H5Aclose(attribute_id);
   H5Sclose(dataspace_id);
+  H5Tclose(strtype);
 }
 
 //not currently used
-- 
2.43.0


From 0e3716bdea19b09a54bea04df5176b5655527696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 21/93] fix: a SunASnu built from arrays had another radius
 than one built from a file and its tracks

---
 src/body.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index 6d0a94a..b32e46c 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -580,7 +580,7 @@ SunASnu::SunASnu(std::vector<double> x,std::vector<double> rho,std::vector<doubl
 Body(),sun_radius(std::move(x)),sun_density(std::move(rho)),sun_xh(std::move(xh)),
 inter_density(sun_radius,sun_density),inter_xh(sun_radius,sun_xh)
 {
-  radius = 695980.0*param.km;
+  radius = 694439.0*param.km;
   arraysize = sun_radius.size();
 }
 
-- 
2.43.0


From b2b51c0aaf95100cadcac2491c5d149ccc782935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 22/93] fix: SunASnu tracks lost their impact parameter when
 serialised

---
 src/body.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index b32e46c..6bcc491 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -598,13 +598,25 @@ void SunASnu::Track::Serialize(hid_t group) const {
   addDoubleAttribute(group,"x",x);
   addDoubleAttribute(group,"xini",xini);
   addDoubleAttribute(group,"xend",xend);
+  addDoubleAttribute(group,"b_impact",b_impact);
 }
 
 std::shared_ptr<SunASnu::Track> SunASnu::Track::Deserialize(hid_t group){
   double x_   =readDoubleAttribute(group,"x");
   double xini_=readDoubleAttribute(group,"xini");
   double xend_=readDoubleAttribute(group,"xend");
-  return std::make_shared<SunASnu::Track>(x_,xini_,xend_);
+  double b_impact_;
+  if(H5Aexists(group,"b_impact")>0)
+    b_impact_=readDoubleAttribute(group,"b_impact");
+  else{
+    // the impact parameter was originally not serialized; infer it from the length of the chord
+    double radius_nu_=694439.0*param.km;
+    double b2=SQR(radius_nu_)-SQR(xend_/2);
+    b_impact_=(b2>0 ? sqrt(b2) : 0);
+  }
+  auto track=std::make_shared<SunASnu::Track>(x_,xini_,b_impact_);
+  track->xend=xend_;
+  return track;
 }
 
 void SunASnu::Serialize(hid_t group) const {
-- 
2.43.0


From 8416c05cbc6249d9fb861b3d9064a325e5f56bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 23/93] fix: SunASnu density was not a number at the centre of
 the Sun

---
 src/body.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 6bcc491..2a76fcb 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -669,7 +669,8 @@ double SunASnu::density(const GenericTrack& track_input) const
   double x = track_sunasnu.GetX();
   double b = track_sunasnu.b_impact;
 
-  double r = sqrt(SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b)))/radius;
+  double r2 = SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b));
+  double r = (r2>0 ? sqrt(r2) : 0)/radius;
 
   return rdensity(r);
 }
@@ -679,7 +680,8 @@ double SunASnu::ye(const GenericTrack& track_input) const
   const SunASnu::Track& track_sunasnu = static_cast<const SunASnu::Track&>(track_input);
   double x = track_sunasnu.GetX();
   double b = track_sunasnu.b_impact;
-  double r = sqrt(SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b)))/radius;
+  double r2 = SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b));
+  double r = (r2>0 ? sqrt(r2) : 0)/radius;
   return 0.5*(1.0+rxh(r));
 }
 
-- 
2.43.0


From faee4fbcae2ad0908994b037d6ccc3591f7d5d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 24/93] fix: EarthAtm tracks made with a cosine ignored the
 radius and height they were given

---
 src/body.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/body.cpp b/src/body.cpp
index 2a76fcb..76a71b7 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -786,6 +786,8 @@ EarthAtm::Track
 EarthAtm::Track::MakeWithCosine(double cosphi, double earth_radius_, double atmheight_){
   Track track;
 
+  track.earth_radius = earth_radius_;
+  track.atmheight = atmheight_;
   track.cosphi = cosphi;
   double sinsqphi = 1-track.cosphi*track.cosphi;
 
-- 
2.43.0


From a361bdb7e73254c9aff43de9beae7d75b032ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 25/93] fix: EarthAtm tracks lost their direction when
 serialised

---
 src/body.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index 76a71b7..af0966d 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -732,8 +732,10 @@ void EarthAtm::Track::Serialize(hid_t group) const {
 }
 
 std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
-  double x, cosphi;
+  double x, xini, xend, cosphi;
   readH5Attribute(group,"x", x);
+  readH5Attribute(group,"xini", xini);
+  readH5Attribute(group,"xend", xend);
   readH5Attribute(group,"cosphi",cosphi);
   // these parameters were originally not serialized, so give them default values equal to what
   // was originally hard-coded
@@ -745,6 +747,8 @@ std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
     readH5Attribute(group,"atmheight", atmheight);
   auto track=std::make_shared<EarthAtm::Track>(EarthAtm::Track::MakeWithCosine(cosphi,earth_radius,atmheight));
   track->SetX(x);
+  track->xini=xini;
+  track->xend=xend;
   return track;
 }
 
-- 
2.43.0


From 7c987b04e98b64af2b67470bb5bf7f7348138f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 26/93] fix: WriteHDF stored the electron flavor cross sections
 as those of the muon flavor

---
 src/xsections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 0c3ed7c..da84ad7 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -568,7 +568,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteHDF(const std::string& path, unsig
 		writeFlavorHDF5(nueGrp, getFlavor(electron), compressionLevel);
 	}
 	
-	if(true || flavorsSame(electron,muon))
+	if(flavorsSame(electron,muon))
 		makeAlias("electron","muon");
 	else{
 		H5Handle numuGrp(H5Gcreate(h5file, "muon", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 group for nu_mu cross sections");
-- 
2.43.0


From 1425633ef1d1dae6df648831ac6ab715fdde74a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 27/93] fix: differential cross section tables were written to
 text transposed and had to be square in HDF5

---
 include/nuSQuIDS/xsections.h |  4 ++--
 src/xsections.cpp            | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/nuSQuIDS/xsections.h b/include/nuSQuIDS/xsections.h
index 7bf58f6..babfa6d 100755
--- a/include/nuSQuIDS/xsections.h
+++ b/include/nuSQuIDS/xsections.h
@@ -492,9 +492,9 @@ public:
     /// whose values are the base-ten logarithms of the differential cross 
     /// section with respect to y, in square centimeters, for the indicated 
     /// current and impinging particle type. The dimensions of these datasets 
-    /// are energy and 'z', corresponding to the values in the energies and zs
+    /// are 'z' and energy, corresponding to the values in the zs and energies
     /// datasets. Since 'z' is not well-defined for the lowest incoming neutrino 
-    /// energy in the tables, E_in = E_min, the row corresponding to this energy 
+    /// energy in the tables, E_in = E_min, the column corresponding to this energy 
     /// should contain a small value (but not negative infinity), which will 
     /// never be used directly. -50, corresponding to a cross section of 1e-50 
     /// cm^2 can be a good choice in practice. 
diff --git a/src/xsections.cpp b/src/xsections.cpp
index da84ad7..163536f 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -355,7 +355,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		for(std::size_t i=0, iMax=x.extent(0); i!=iMax; i++){
 			double en=pow(10.,x[i])/GeV;
 			for(std::size_t j=0, jMax=y.extent(0); j!=jMax; j++)
-				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[i][j]) << '\n';
+				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[j][i]) << '\n';
 		}
 	};
 	NeutrinoFlavor flavor;
@@ -398,10 +398,10 @@ NeutrinoDISCrossSectionsFromTables::readFlavorHDF5(hid_t sourceLoc,
 	marray<double,2> buffer2;
 	auto readDifferential=[&](BiCubicInterpolator& dest, const std::string& tableName){
 		readArrayH5(sourceLoc, tableName, buffer2); //reallocates the target array 
-		if(buffer2.extent(0)!=energies.extent(0))
-			throw std::runtime_error(tableName+" does not have the same first dimension as energies");
-		if(buffer2.extent(1)!=zs.extent(0))
-			throw std::runtime_error(tableName+"'s second dimension does not have the same size as zs");
+		if(buffer2.extent(0)!=zs.extent(0))
+			throw std::runtime_error(tableName+"'s first dimension does not have the same size as zs");
+		if(buffer2.extent(1)!=energies.extent(0))
+			throw std::runtime_error(tableName+"'s second dimension does not have the same size as energies");
 		dest=BiCubicInterpolator(std::move(buffer2),energies,zs);
 	};
 	readDifferential(data->dsdy_CC_nu,"dsdy_CC_nu");
-- 
2.43.0


From 42e408f351059240cd76e19bf5ee38787469ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 28/93] fix: cross sections written to text kept only six
 digits

---
 src/xsections.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 163536f..71174fb 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -339,6 +339,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		std::ofstream outfile(path);
 		if(!outfile)
 			throw std::runtime_error("Unable to open "+path+" for writing");
+		outfile.precision(std::numeric_limits<double>::max_digits10);
 		//this makes a copy, which is unfortunate, but not a disaster for the 1D data
 		auto ab=data.getAbscissas();
 		auto ord=data.getOrdinates();
@@ -349,6 +350,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		std::ofstream outfile(path);
 		if(!outfile)
 			throw std::runtime_error("Unable to open "+path+" for writing");
+		outfile.precision(std::numeric_limits<double>::max_digits10);
 		const auto& x=data.getXCoords();
 		const auto& y=data.getYCoords();
 		const auto& z=data.getData();
@@ -814,6 +816,7 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
   auto writeTotal=[](const std::string& path, const marray<double,3>& data,
                      const std::vector<double>& logEnergies, double GeV){
     std::ofstream out(path);
+    out.precision(std::numeric_limits<double>::max_digits10);
     for(size_t ie=0; ie<logEnergies.size(); ie++){
       out << exp(logEnergies[ie]) << ' ';
       for(size_t fl : {0,1,2}){
@@ -829,6 +832,7 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
   auto writeDifferential=[](const std::string& path, const marray<double,4>& data,
                             const std::vector<double>& logEnergies, double GeV){
     std::ofstream out(path);
+    out.precision(std::numeric_limits<double>::max_digits10);
     for(size_t ie1=0; ie1<logEnergies.size(); ie1++){
       double e1=exp(logEnergies[ie1]);
       for(size_t ie2=0; ie2<logEnergies.size(); ie2++){
-- 
2.43.0


From 23a71009efae1b000b9c40f0ff30c2be0f6ff1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 29/93] fix: NeutrinoDISCrossSectionsFromTables_V1 read beyond
 its tables at the highest energy

---
 src/xsections.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 71174fb..89f5c2a 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -628,8 +628,8 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
   double logE = log(Enu);
   double dlogE = logE_data_range[1]-logE_data_range[0];
   size_t idx = static_cast<size_t>((logE-logE_data_range[0])/dlogE);
-  if(idx==div)
-    idx--;
+  if(idx>=div-1)
+    idx=div-2;
   const marray<double,3>& sigma=(current==CC ? s_CC_data : s_NC_data);
   return(LinInter(logE,logE_data_range[idx],logE_data_range[idx+1],sigma[neutype][flavor][idx],sigma[neutype][flavor][idx+1]));
 }
@@ -656,7 +656,7 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
   size_t loge_M1 = static_cast<size_t>((logE1-logE_data_range[0])/dlogE);
   size_t loge_M2 = static_cast<size_t>((logE2-logE_data_range[0])/dlogE);
 
-  if ((loge_M2 > div-1) or (loge_M1 > div-1) or (E2 >= E1))
+  if ((loge_M2 >= div-1) or (loge_M1 > div-1) or (E2 >= E1))
     return 0.0;
 
   //std::cout << E1 << " " << E2 << " " << loge_M1 << " " << loge_M2 << " " << div << std::endl;
-- 
2.43.0


From 64cffe75f82fbf2dbd91048c4e0aaa50759617ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 30/93] fix: cross section text tables of inconsistent sizes
 were read out of bounds

---
 src/xsections.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 89f5c2a..7518fa6 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -720,10 +720,16 @@ void NeutrinoDISCrossSectionsFromTables_V1::ReadText(std::string root){
           // check table shapes and get the number of energy nodes
           unsigned int data_e_size = 0;
           if( sigma_CC_raw_data.extent(0) == sigma_NC_raw_data.extent(0) and
-              sigma_NC_raw_data.extent(1) == sigma_NC_raw_data.extent(1) )
+              sigma_CC_raw_data.extent(1) == sigma_NC_raw_data.extent(1) )
             data_e_size = sigma_CC_raw_data.extent(0);
           else
             throw std::runtime_error("nuSQUIDS::xsections::init: Data tables not the same size.");
+          if(data_e_size < 2 or sigma_CC_raw_data.extent(1) < 7)
+            throw std::runtime_error("nuSQUIDS::xsections::init: Total cross section tables too small.");
+          for(const auto* dsde : {&dsde_CC_raw_data,&dsde_NC_raw_data}){
+            if(dsde->extent(0) != static_cast<size_t>(data_e_size)*data_e_size or dsde->extent(1) < 8)
+              throw std::runtime_error("nuSQUIDS::xsections::init: Data tables not the same size.");
+          }
 
           // getting the raw data energy node values
           logE_data_range.resize(data_e_size);
-- 
2.43.0


From 2b35fc950018db2fadb544b8bf0310fcf6b2e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 31/93] fix: check the energy range of every flavor's
 charged-current table

---
 src/xsections.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 7518fa6..aff9afe 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -279,6 +279,8 @@ NeutrinoDISCrossSectionsFromTables::readFlavorText(const std::string& prefix,
 		Emax=eMaxTmp;
 		erangeSrc=prefix+"nu_sigma_CC.dat";
 	}
+	else if(eMinTmp!=Emin || eMaxTmp!=Emax)
+		throw std::runtime_error(prefix+"nu_sigma_CC.dat has different energy domain than "+erangeSrc);
 	std::tie(data->s_NC_nu,eMinTmp,eMaxTmp)=read1DInterpolationFromText(prefix+"nu_sigma_NC.dat");
 	if(eMinTmp!=Emin || eMaxTmp!=Emax)
 		throw std::runtime_error(prefix+"nu_sigma_NC.dat has different energy domain than "+erangeSrc);
-- 
2.43.0


From 271a8bc36196f14a715ff42942ac39409d01f3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 32/93] fix: indices equal to the number of flavors were
 accepted for mixing parameters

---
 src/nuSQuIDS.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 948f037..b80aef3 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2842,40 +2842,40 @@ std::shared_ptr<Body> nuSQUIDS::GetBody(){
 }
 
 void nuSQUIDS::Set_MixingAngle( unsigned int i, unsigned int j, double val){
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_MixingAngle::Error: Mixing angle index greater than number of neutrino flavors.");
   params.SetMixingAngle(i,j,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_MixingAngle( unsigned int i, unsigned int j) const {
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_MixingAngle::Error: Mixing angle index greater than number of neutrino flavors.");
   return params.GetMixingAngle(i,j);
 }
 
 void nuSQUIDS::Set_CPPhase( unsigned int i, unsigned int j, double val){
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_CPPhase::Error: CP phase index greater than number of neutrino flavors.");
   params.SetPhase(i,j,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_CPPhase( unsigned int i, unsigned int j) const {
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_CPPhase::Error: CP phase index greater than number of neutrino flavors.");
   return params.GetPhase(i,j);
 }
 
 void nuSQUIDS::Set_SquareMassDifference( unsigned int i, double val){
-  if ( i > numneu )
+  if ( i >= numneu )
     throw std::invalid_argument("nuSQUIDS::Set_SquareMassDifference::Error: Index greater than number of neutrino flavors.");
   params.SetEnergyDifference(i,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_SquareMassDifference( unsigned int i ) const {
-  if ( i > numneu )
+  if ( i >= numneu )
     throw std::invalid_argument("nuSQUIDS::Set_SquareMassDifference::Error: Index greater than number of neutrino flavors.");
   return params.GetEnergyDifference(i);
 }
-- 
2.43.0


From b52cee9e5c0139a6b22143d5c2e052f60b5b8b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 33/93] fix: neutral current potential of matter without
 electrons had the wrong sign and size

---
 src/nuSQuIDS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index b80aef3..52d36af 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -336,7 +336,7 @@ squids::SU_vector nuSQUIDS::HI(unsigned int ie, unsigned int irho) const{
     double NC;
 
     if (current_ye < 1.0e-10)
-      NC = HI_constants*current_density;
+      NC = -0.5*HI_constants*current_density;
     else
       NC = CC*(-0.5*(1.0-current_ye)/current_ye);
     // antineutrino matter potential flips sign
-- 
2.43.0


From 95f800af1bbc6f7d4970aad0b6f5391c798cc16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 34/93] fix: a second evolution along a reversed track, or one
 along a forward track after it, stepped the wrong way

---
 src/nuSQuIDS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 52d36af..9da4119 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1251,7 +1251,8 @@ void nuSQUIDS::EvolveState(){
     SetUpInteractionCache();
 
   // is track time reversed
-  if(track->GetFinalX() < track->GetInitialX()){
+  bool reversed = track->GetFinalX() < track->GetInitialX();
+  if(reversed != (Get_h() < 0)){
     // flip the arrow of time
     Set_h((-1.0)*Get_h());
   }
-- 
2.43.0


From 17ad37da4267b18371efd10efb1b89293df3bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 35/93] fix: with the positivity constraint tracks that do not
 start at zero were evolved over the wrong length

---
 src/nuSQuIDS.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 9da4119..1c77fb3 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -130,6 +130,8 @@ void nuSQUIDS::init(double xini){
 
   iniH0();
 
+  positivization_scale = 300.0*params.km;
+
   //precompute this product for HI to avoid repeating expensive pow() calls.
   HI_constants = params.sqrt2*params.GF*params.Na*pow(params.cm,-3);
 
@@ -1291,13 +1293,18 @@ void nuSQUIDS::EvolveState(){
   }
 
   if(positivization){
-    int positivization_steps = static_cast<int>((track->GetFinalX() - track->GetInitialX())/positivization_scale);
+    double length = track->GetFinalX() - track->GetInitialX();
+    double step = reversed ? -positivization_scale : positivization_scale;
+    int positivization_steps = static_cast<int>(length/step);
     for (int i = 0; i < positivization_steps; i++){
-      Evolve(positivization_scale);
+      Evolve(step);
+      PositivizeFlavors();
+    }
+    double remainder = length-step*positivization_steps;
+    if(reversed ? remainder < 0 : remainder > 0){
+      Evolve(remainder);
       PositivizeFlavors();
     }
-    Evolve(track->GetFinalX()-positivization_scale*positivization_steps);
-    PositivizeFlavors();
   } else {
     Evolve(track->GetFinalX()-track->GetInitialX());
   }
-- 
2.43.0


From 53f724e85eb39fdd58d4d26ef7517c2323961100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 36/93] fix: sources were added more than once when neutrinos
 and antineutrinos evolve without oscillations

---
 src/nuSQuIDS.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 1c77fb3..fd9ab41 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -841,6 +841,7 @@ void nuSQUIDS::UpdateInteractions(){
                                     <squids::detail::EqualSizes | squids::detail::AlignedStorage>
                                     (factors_nu_tau[e1]*projector_tau);
       }
+    }
 
     if(enable_neutrino_sources){
       for(unsigned int rho = 0; rho < nrhos; rho++){
@@ -854,8 +855,6 @@ void nuSQUIDS::UpdateInteractions(){
       }
     }
 
-    }
-
   } //end of no oscillation handling
   else{ //oscillations
     NUSQUIDS_DEBUG_LABEL(NC_contribution_osc);
-- 
2.43.0


From 750fc7fb2f8a45ad10b172829aa42cdb3e6425b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 37/93] fix: mixing the fast constant density evolution with
 the general one lost the earlier evolution or skipped the later one

---
 src/nuSQuIDS.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index fd9ab41..ea3f6f7 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1258,13 +1258,31 @@ void nuSQUIDS::EvolveState(){
     Set_h((-1.0)*Get_h());
   }
 
-  if ( (body->IsConstantDensity() and not iinteraction) and allowConstantDensityOscillationOnlyEvolution ){
+  if ( (body->IsConstantDensity() and not iinteraction and not enable_neutrino_sources) and allowConstantDensityOscillationOnlyEvolution ){
     // when only oscillations are considered and the density is constant
     // we can ju st rotate the system to the propagation eigenstates
     use_full_hamiltonian_for_projector_evolution = true;
     // turn off squids numerics
     Set_AnyNumerics(false);
     // disable interaction basis and go to mass basis
+    if(basis != mass){
+      // what was evolved in the interaction basis so far has to be brought along
+      if(ioscillations){
+        squids::SU_vector tmp(nsun);
+        for(unsigned int rho = 0; rho < nrhos; rho++){
+          for(unsigned int ie = 0; ie < ne; ie++){
+            tmp = state[ie].rho[rho].Evolve(H0_array[ie],Get_t_initial()-Get_t());
+            state[ie].rho[rho] = tmp;
+          }
+        }
+      }
+      for(unsigned int rho = 0; rho < nrhos; rho++){
+        for(unsigned int flv = 0; flv < numneu; flv++){
+          for(unsigned int ie = 0; ie < ne; ie++)
+            evol_b1_proj[rho][flv][ie] = b1_proj[rho][flv];
+        }
+      }
+    }
     Set_Basis(mass);
     double evolution_time = track->GetFinalX()-track->GetInitialX();
     // go go go
@@ -1291,6 +1309,12 @@ void nuSQUIDS::EvolveState(){
     return;
   }
 
+  if(use_full_hamiltonian_for_projector_evolution){
+    // an earlier constant density evolution turned the numerics off
+    use_full_hamiltonian_for_projector_evolution = false;
+    Set_AnyNumerics(true);
+  }
+
   if(positivization){
     double length = track->GetFinalX() - track->GetInitialX();
     double step = reversed ? -positivization_scale : positivization_scale;
-- 
2.43.0


From b94c914ba61b27279f09ca243a8b775a8b822f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 38/93] fix: GetHamiltonian counted the vacuum part twice in
 the mass basis

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index ea3f6f7..814da2f 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1713,6 +1713,8 @@ squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
   if (!ienergy)
     throw std::runtime_error("nuSQUIDS::Error::Energy not initialized");
   PreDerive(Get_t());
+  if (basis == mass) // HI already includes the vacuum part
+    return HI(ei,rho,Get_t());
   return H0(E_range[ei],rho)+HI(ei,rho,Get_t());
 }
 
-- 
2.43.0


From b928f59f3d5e8fef97d250c4e07b23856b68eaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 39/93] fix: EvalMass extrapolated below the energy range in
 the mass basis

---
 src/nuSQuIDS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 814da2f..74fff18 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1487,11 +1487,11 @@ double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho) const{
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   if ( rho != 0 and NT != both )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( basis == mass )
-    return b0_proj[flv]*GetIntermediateState(rho,EE);
   if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
+  if ( basis == mass )
+    return b0_proj[flv]*GetIntermediateState(rho,EE);
   return GetExpectationValueD(b0_proj[flv], rho, EE);
 }
 
-- 
2.43.0


From 842ec6fbddb2df1f747760cf065b1acc81e8afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 40/93] fix: evaluating the state with indices out of range
 read outside of the arrays

---
 src/nuSQuIDS.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 74fff18..562a121 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1487,6 +1487,10 @@ double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho) const{
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   if ( rho != 0 and NT != both )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Equation index greater than number of equations.");
+  if ( flv >= nsun )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
@@ -1500,6 +1504,10 @@ double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho) const{
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   if ( rho != 0 and NT != both )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Equation index greater than number of equations.");
+  if ( flv >= nsun )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
@@ -1513,6 +1521,10 @@ double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho, double s
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   if ( rho != 0 and NT != both )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Equation index greater than number of equations.");
+  if ( flv >= nsun )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
@@ -1528,6 +1540,10 @@ double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho, double
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   if ( rho != 0 and NT != both )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Equation index greater than number of equations.");
+  if ( flv >= nsun )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
@@ -1543,6 +1559,12 @@ double nuSQUIDS::EvalMassAtNode(unsigned int flv, unsigned int ei, unsigned int
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   if ( rho != 0 and NT != both )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Equation index greater than number of equations.");
+  if ( flv >= nsun )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( ei >= ne )
+    throw std::runtime_error("nuSQUIDS::Error::Energy node index greater than number of energy nodes.");
   if(basis == mass)
     return b0_proj[flv]*state[ei].rho[rho];
   return GetExpectationValue(b0_proj[flv], rho, ei);
@@ -1553,6 +1575,12 @@ double nuSQUIDS::EvalFlavorAtNode(unsigned int flv, unsigned int ei, unsigned in
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   if ( rho != 0 and NT != both )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Equation index greater than number of equations.");
+  if ( flv >= nsun )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( ei >= ne )
+    throw std::runtime_error("nuSQUIDS::Error::Energy node index greater than number of energy nodes.");
   if(basis == mass)
     return b1_proj[rho][flv]*state[ei].rho[rho];
   return GetExpectationValue(b1_proj[rho][flv], rho, ei);
-- 
2.43.0


From 41d5000e239d4a57736ec841870461c9893b1713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:05 +0000
Subject: [PATCH 41/93] fix: the neutral current buffer was claimed to be
 aligned but allocated without alignment

---
 include/nuSQuIDS/nuSQuIDS.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 3e39927..755506a 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -433,7 +433,7 @@ protected:
     ///Total size of interaction_cache_store
     size_t interaction_cache_store_size;
   
-    marray<double,3> nc_factors;
+    marray<double,3,aligned_allocator<double>> nc_factors{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
     marray<double,2> tau_hadlep_decays;
     marray<double,2> tau_lep_decays;
     marray<double,1> gr_factors;
-- 
2.43.0


From 7119c9b7bc6c7379827cb57d456a073f11961e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:05 +0000
Subject: [PATCH 42/93] fix: copies and comparisons of an InteractionStructure
 left out its targets

---
 include/nuSQuIDS/nuSQuIDS.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 755506a..799ef5d 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -208,6 +208,7 @@ protected:
         {}
         /// \brief Assignment operator
         InteractionStructure& operator=(const InteractionStructure& other){
+          targets=other.targets;
           dNdE_CC=other.dNdE_CC;
           dNdE_NC=other.dNdE_NC;
           dNdE_GR=other.dNdE_GR;
@@ -220,6 +221,7 @@ protected:
         }
         /// \brief Move assignment operator
         InteractionStructure& operator=(InteractionStructure&& other){
+          targets=std::move(other.targets);
           dNdE_CC=std::move(other.dNdE_CC);
           dNdE_NC=std::move(other.dNdE_NC);
           dNdE_GR=std::move(other.dNdE_GR);
@@ -233,6 +235,7 @@ protected:
         /// \brief Equality operator
         bool operator==(const InteractionStructure& other) const{
           if (
+               targets != other.targets or
                dNdE_CC.size() != other.dNdE_CC.size() or
                dNdE_NC.size() != other.dNdE_NC.size() or
                dNdE_GR.size() != other.dNdE_GR.size() or
@@ -277,7 +280,8 @@ protected:
           return not (*this==other);
         }
         /// \brief Copy constructor operator
-        InteractionStructure(InteractionStructure& other):
+        InteractionStructure(const InteractionStructure& other):
+          targets(other.targets),
           dNdE_CC(other.dNdE_CC),dNdE_NC(other.dNdE_NC),dNdE_GR(other.dNdE_GR),
           sigma_CC(other.sigma_CC),sigma_NC(other.sigma_NC),sigma_GR(other.sigma_GR),
           dNdE_tau_all(other.dNdE_tau_all),
@@ -285,6 +289,7 @@ protected:
         {}
         /// \brief Move constructor operator
         InteractionStructure(InteractionStructure&& other):
+          targets(std::move(other.targets)),
           dNdE_CC(std::move(other.dNdE_CC)),dNdE_NC(std::move(other.dNdE_NC)),dNdE_GR(std::move(other.dNdE_GR)),
           sigma_CC(std::move(other.sigma_CC)),sigma_NC(std::move(other.sigma_NC)),sigma_GR(std::move(other.sigma_GR)),
           dNdE_tau_all(std::move(other.dNdE_tau_all)),
@@ -321,7 +326,7 @@ protected:
     invlen_INT(aligned_allocator<double>(log2(preferred_alignment*sizeof(double))))
     {}
     /// \brief Copy constructor
-    InteractionState(InteractionState& other):
+    InteractionState(const InteractionState& other):
     invlen_CC(other.invlen_CC),invlen_NC(other.invlen_NC),
     invlen_GR(other.invlen_GR),invlen_INT(other.invlen_INT)
     {}
-- 
2.43.0


From 4e003e61faf1d573a7c44e69f9551a489411f30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 43/93] fix: writing the state looked up a dimension the
 Glashow resonance table does not have

---
 src/nuSQuIDS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 562a121..728552d 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2003,7 +2003,7 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
       H5Handle dsetDSigmaGR(H5Dcreate2(xs_group,"dNdEgr",H5T_NATIVE_DOUBLE,dspaceDSigmaGR,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT), H5Dclose, "create HDF5 dataset");
       
       //check the last dimension of the cross section arrays for padding
-      if(int_struct->dNdE_GR.extent(4)==ne){
+      if(int_struct->dNdE_CC.extent(4)==ne){
         //no padding, which makes writing easy; dataspaces are the same shape
         //write dNdE CC
         herr_t err=H5Dwrite(dsetDSigmaCC, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &*int_struct->dNdE_CC.begin());
-- 
2.43.0


From 4992e06d295e904043a2abdda364254dea5b3572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 44/93] fix: interaction buffers were too short after reading
 the state of a number of energies that is not a multiple of four

---
 src/nuSQuIDS.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 728552d..b0f8f6d 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2748,13 +2748,14 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
       }
     }
 
-    nc_factors.resize(std::vector<size_t>{nrhos,3,ne});
+    size_t rounded_ne=round_up_to_aligned(ne);
+    nc_factors.resize(std::vector<size_t>{nrhos,3,rounded_ne});
     if(tauregeneration){
-      tau_hadlep_decays.resize(std::vector<size_t>{2,ne});
-      tau_lep_decays.resize(std::vector<size_t>{2,ne});
+      tau_hadlep_decays.resize(std::vector<size_t>{2,rounded_ne});
+      tau_lep_decays.resize(std::vector<size_t>{2,rounded_ne});
     }
     if(iglashow)
-      gr_factors.resize(std::vector<size_t>{ne});
+      gr_factors.resize(std::vector<size_t>{rounded_ne});
 
     interactions_initialized = true;
   }
-- 
2.43.0


From 68eb26a0f41fb01a7a1511324471908e9b0f54e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:36 +0000
Subject: [PATCH 45/93] fix: moving a nuSQUIDS object lost its time offset, its
 interaction buffers and some of its options

---
 src/nuSQuIDS.cpp | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index b0f8f6d..28571d0 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2983,23 +2983,40 @@ H0_array(std::move(other.H0_array)),
 HI_constants(other.HI_constants),
 current_density(other.current_density),
 current_ye(other.current_ye),
+current_external_flux(std::move(other.current_external_flux)),
 b0_proj(std::move(other.b0_proj)),
 b1_proj(std::move(other.b1_proj)),
 evol_b0_proj(std::move(other.evol_b0_proj)),
 evol_b1_proj(std::move(other.evol_b1_proj)),
+interaction_cache(std::move(other.interaction_cache)),
+interaction_cache_store(std::move(other.interaction_cache_store)),
+interaction_cache_store_size(other.interaction_cache_store_size),
+nc_factors(std::move(other.nc_factors)),
+tau_hadlep_decays(std::move(other.tau_hadlep_decays)),
+tau_lep_decays(std::move(other.tau_lep_decays)),
+gr_factors(std::move(other.gr_factors)),
+use_full_hamiltonian_for_projector_evolution(other.use_full_hamiltonian_for_projector_evolution),
+debug(other.debug),
 inusquids(other.inusquids),
 ibody(other.ibody),
 ienergy(other.ienergy),
 itrack(other.itrack),
 istate(other.istate),
 iinteraction(other.iinteraction),
+interactions_initialized(other.interactions_initialized),
 ioscillations(other.ioscillations),
 tauregeneration(other.tauregeneration),
 iglashow(other.iglashow),
 positivization(other.positivization),
+allowConstantDensityOscillationOnlyEvolution(other.allowConstantDensityOscillationOnlyEvolution),
 progressbar(other.progressbar),
 progressbar_count(other.progressbar_count),
-progressbar_loop(other.progressbar_loop)
+progressbar_loop(other.progressbar_loop),
+time_offset(other.time_offset),
+gsl_int_precision(other.gsl_int_precision),
+evol_lowpass_cutoff(other.evol_lowpass_cutoff),
+evol_lowpass_scale(other.evol_lowpass_scale),
+enable_neutrino_sources(other.enable_neutrino_sources)
 {
   other.inusquids=false; //other is no longer usable, since we stole its contents
 }
@@ -3027,24 +3044,41 @@ nuSQUIDS& nuSQUIDS::operator=(nuSQUIDS&& other){
   HI_constants = other.HI_constants;
   current_density = other.current_density;
   current_ye = other.current_ye;
+  current_external_flux = std::move(other.current_external_flux);
   b0_proj = std::move(other.b0_proj);
   b1_proj = std::move(other.b1_proj);
   evol_b0_proj = std::move(other.evol_b0_proj);
   evol_b1_proj = std::move(other.evol_b1_proj);
-
+  interaction_cache = std::move(other.interaction_cache);
+  interaction_cache_store = std::move(other.interaction_cache_store);
+  interaction_cache_store_size = other.interaction_cache_store_size;
+  nc_factors = std::move(other.nc_factors);
+  tau_hadlep_decays = std::move(other.tau_hadlep_decays);
+  tau_lep_decays = std::move(other.tau_lep_decays);
+  gr_factors = std::move(other.gr_factors);
+
+  use_full_hamiltonian_for_projector_evolution = other.use_full_hamiltonian_for_projector_evolution;
+  debug = other.debug;
   inusquids = other.inusquids;
   ibody = other.ibody;
   ienergy = other.ienergy;
   itrack = other.itrack;
   istate = other.istate;
   iinteraction = other.iinteraction;
+  interactions_initialized = other.interactions_initialized;
   ioscillations = other.ioscillations;
   tauregeneration = other.tauregeneration;
   iglashow = other.iglashow;
   positivization = other.positivization;
+  allowConstantDensityOscillationOnlyEvolution = other.allowConstantDensityOscillationOnlyEvolution;
   progressbar = other.progressbar;
   progressbar_count = other.progressbar_count;
   progressbar_loop = other.progressbar_loop;
+  time_offset = other.time_offset;
+  gsl_int_precision = other.gsl_int_precision;
+  evol_lowpass_cutoff = other.evol_lowpass_cutoff;
+  evol_lowpass_scale = other.evol_lowpass_scale;
+  enable_neutrino_sources = other.enable_neutrino_sources;
 
   NT = other.NT;
 
-- 
2.43.0


From 891286e9210c1182e60ee30ce9b1d45b9fda62e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:36 +0000
Subject: [PATCH 46/93] fix: the size of the interaction cache was copied by
 moves before it was set

---
 include/nuSQuIDS/nuSQuIDS.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 799ef5d..a0e63de 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -436,7 +436,7 @@ protected:
     ///be ensured to be correctly aligned for best performance.
     std::unique_ptr<double[]> interaction_cache_store;
     ///Total size of interaction_cache_store
-    size_t interaction_cache_store_size;
+    size_t interaction_cache_store_size=0;
   
     marray<double,3,aligned_allocator<double>> nc_factors{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
     marray<double,2> tau_hadlep_decays;
-- 
2.43.0


From 99b64f411c719372ad107d7826b141e94b1d3dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:36 +0000
Subject: [PATCH 47/93] fix: cross sections set after the interactions were
 initialized were ignored

---
 include/nuSQuIDS/nuSQuIDS.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index a0e63de..0cc836b 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1045,6 +1045,8 @@ protected:
     /// \brief Returns the neutrino interaction cross sections
     void SetNeutrinoCrossSections(std::shared_ptr<CrossSectionLibrary> xs) {
        ncs=xs;
+       //discard what was tabulated from the previous cross sections
+       int_struct.reset();
        interactions_initialized=false;
     }
 
-- 
2.43.0


From e331949c83144214d7c675ae2abc4d9bf052dd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 48/93] fix: the averaged evaluations of the single energy mode
 did not check the size of the vector of flags

---
 src/nuSQuIDS.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 28571d0..0de7a8a 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1597,6 +1597,8 @@ double nuSQUIDS::EvalMass(unsigned int flv, double scale, std::vector<bool>& avr
     throw std::runtime_error("nuSQUIDS::Error::Use this function only in single energy mode.");
   if( flv >= nsun )
     throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if(avr.size() != numneu)
+    throw std::runtime_error("nuSQUIDS::Error::Average vector bool size must be the number of neutrinos.");
 
   if(basis == mass)
     return b0_proj[flv]*state[0].rho[0];
@@ -1614,6 +1616,8 @@ double nuSQUIDS::EvalFlavor(unsigned int flv, double scale, std::vector<bool>& a
     throw std::runtime_error("nuSQUIDS::Error::Use this function only in single energy mode.");
   if( flv >= nsun )
     throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if(avr.size() != numneu)
+    throw std::runtime_error("nuSQUIDS::Error::Average vector bool size must be the number of neutrinos.");
 
   if(basis == mass)
     return b1_proj[0][flv]*state[0].rho[0];
-- 
2.43.0


From 9a0cc7f51e3e287f862e8b81d59239140d451e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 49/93] fix: enabling tau regeneration after the interactions
 were initialized wrote out of bounds

---
 src/nuSQuIDS.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 0de7a8a..8fe8053 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2872,6 +2872,12 @@ void nuSQUIDS::Set_TauRegeneration(bool opt){
   if( numneu < 3 and opt )
     throw std::runtime_error("nuSQUIDS::Error::nuSQuIDs at least three neutrino flavors must be included to enable tau regeneration.");
   tauregeneration = opt;
+  if( tauregeneration and interactions_initialized ){
+    // the buffers are only made for what was enabled then
+    size_t rounded_ne=round_up_to_aligned(ne);
+    tau_hadlep_decays.resize(std::vector<size_t>{2,rounded_ne});
+    tau_lep_decays.resize(std::vector<size_t>{2,rounded_ne});
+  }
 }
   
 void nuSQUIDS::Set_GlashowResonance(bool opt){
-- 
2.43.0


From 3de8573caac4f1fd9d7f3931ec6fa93b85518e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 50/93] fix: enabling the Glashow resonance after the
 interactions were initialized used missing tables

---
 include/nuSQuIDS/nuSQuIDS.h |  4 +++
 src/nuSQuIDS.cpp            | 58 ++++++++++++++++++++++++-------------
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 0cc836b..deee8a7 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -546,6 +546,10 @@ protected:
     /// in int_struct.
     /// @see InitializeInteractionVectors
     void GetCrossSections();
+
+    /// \brief Fills in the cross sections of the Glashow resonance.
+    /// @see GetCrossSections
+    void GetGlashowCrossSections();
   private:
 
     /// \brief Prints progress bar.
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 8fe8053..f05c8b2 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1146,26 +1146,8 @@ void nuSQUIDS::GetCrossSections(){
   }
 
     // construct dNdE for Glashow resonance
-    if(iglashow && (NT == both or NT == antineutrino)){
-      auto gr_cs = ncs->crossSectionForTarget(electron);
-      if(!gr_cs)
-        throw std::runtime_error("Glashow Resonance handling is active, but the supplied cross sections do not include a cross section for electrons");
-      marray<double,2> dsignudE_GR{ne,ne};
-      for(unsigned int e1 = 0; e1 < ne; e1++){
-        if(e1>0)
-          int_struct->sigma_GR[e1] = gr_cs->AverageTotalCrossSection(E_range[e1-1],E_range[e1],NeutrinoCrossSections::electron,NeutrinoCrossSections::antineutrino,NeutrinoCrossSections::GR)*cm2;
-        else
-          int_struct->sigma_GR[e1] = gr_cs->TotalCrossSection(E_range[e1],NeutrinoCrossSections::electron,NeutrinoCrossSections::antineutrino,NeutrinoCrossSections::GR)*cm2;
-        dsignudE_GR[e1][0] = gr_cs->SingleDifferentialCrossSection(E_range[e1],E_range[0],NeutrinoCrossSections::electron,NeutrinoCrossSections::antineutrino,NeutrinoCrossSections::GR)*cm2GeV;
-        for(unsigned int e2 = 1; e2 < e1; e2++)
-          dsignudE_GR[e1][e2] = gr_cs->AverageSingleDifferentialCrossSection(E_range[e1],E_range[e2-1],E_range[e2],NeutrinoCrossSections::electron,NeutrinoCrossSections::antineutrino,NeutrinoCrossSections::GR)*cm2GeV;
-      }
-      for(unsigned int e1 = 0; e1 < ne; e1++){
-        for(unsigned int e2 = 0; e2 < e1; e2++){
-          int_struct->dNdE_GR[e1][e2] = dsignudE_GR[e1][e2]/int_struct->sigma_GR[e1];
-        }
-      }
-    }
+    if(iglashow && (NT == both or NT == antineutrino))
+      GetGlashowCrossSections();
 
     // load tau decay spectra
     //
@@ -1194,6 +1176,35 @@ void nuSQUIDS::GetCrossSections(){
 //     std::cout << time << " seconds" << std::endl;
 }
 
+void nuSQUIDS::GetGlashowCrossSections(){
+    double cm2GeV = pow(params.cm,2)*pow(params.GeV,-1);
+    double cm2 = pow(params.cm,2);
+
+    // without a library, because the cross sections were tabulated elsewhere, the default applies
+    std::shared_ptr<const NeutrinoCrossSections> gr_cs;
+    if(ncs)
+      gr_cs = ncs->crossSectionForTarget(electron);
+    else
+      gr_cs = std::make_shared<GlashowResonanceCrossSection>();
+    if(!gr_cs)
+      throw std::runtime_error("Glashow Resonance handling is active, but the supplied cross sections do not include a cross section for electrons");
+    marray<double,2> dsignudE_GR{ne,ne};
+    for(unsigned int e1 = 0; e1 < ne; e1++){
+      if(e1>0)
+        int_struct->sigma_GR[e1] = gr_cs->AverageTotalCrossSection(E_range[e1-1],E_range[e1],NeutrinoCrossSections::electron,NeutrinoCrossSections::antineutrino,NeutrinoCrossSections::GR)*cm2;
+      else
+        int_struct->sigma_GR[e1] = gr_cs->TotalCrossSection(E_range[e1],NeutrinoCrossSections::electron,NeutrinoCrossSections::antineutrino,NeutrinoCrossSections::GR)*cm2;
+      dsignudE_GR[e1][0] = gr_cs->SingleDifferentialCrossSection(E_range[e1],E_range[0],NeutrinoCrossSections::electron,NeutrinoCrossSections::antineutrino,NeutrinoCrossSections::GR)*cm2GeV;
+      for(unsigned int e2 = 1; e2 < e1; e2++)
+        dsignudE_GR[e1][e2] = gr_cs->AverageSingleDifferentialCrossSection(E_range[e1],E_range[e2-1],E_range[e2],NeutrinoCrossSections::electron,NeutrinoCrossSections::antineutrino,NeutrinoCrossSections::GR)*cm2GeV;
+    }
+    for(unsigned int e1 = 0; e1 < ne; e1++){
+      for(unsigned int e2 = 0; e2 < e1; e2++){
+        int_struct->dNdE_GR[e1][e2] = dsignudE_GR[e1][e2]/int_struct->sigma_GR[e1];
+      }
+    }
+}
+
 void nuSQUIDS::Set_Body(std::shared_ptr<Body> body_in){
   body = body_in;
   ibody = true;
@@ -2883,7 +2894,14 @@ void nuSQUIDS::Set_TauRegeneration(bool opt){
 void nuSQUIDS::Set_GlashowResonance(bool opt){
   if( not iinteraction and opt )
     throw std::runtime_error("nuSQUIDS::Error::nuSQuIDs has been initialized without interactions, thus the Glashow resonance cannot be enabled.");
+  bool enabling = opt and not iglashow;
   iglashow = opt;
+  if( enabling and interactions_initialized ){
+    // what is needed is only made for what was enabled then
+    gr_factors.resize(std::vector<size_t>{round_up_to_aligned(ne)});
+    if( NT == both or NT == antineutrino )
+      GetGlashowCrossSections();
+  }
 }
 
 void nuSQUIDS::Set_ProgressBar(bool opt){
-- 
2.43.0


From 5da6c994157636ce5052e176c2d7c1beb8dd0aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 51/93] fix: the state written to a file did not tell the basis
 it was evolved in

---
 src/nuSQuIDS.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index f05c8b2..38c520a 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1828,6 +1828,8 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
   H5LTset_attribute_int(group, "basic", "tau_regeneration", &auxint, 1);
   auxint = static_cast<int>(iglashow);
   H5LTset_attribute_int(group, "basic", "glashow_resonance", &auxint, 1);
+  auxint = static_cast<int>(basis);
+  H5LTset_attribute_int(group, "basic", "basis", &auxint, 1);
   double auxt = Get_t();
   H5LTset_attribute_double(group, "basic", "squids_time", &auxt,1);
   double auxt_ini = Get_t_initial();
@@ -2188,6 +2190,9 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   if(err>=0) tauregeneration=auxint;
   err=H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint);
   if(err>=0) iglashow=auxint;
+  // the state components depend on the basis in which it was evolved
+  err=H5LTget_attribute_int(group, "basic", "basis", &auxint);
+  basis=(err>=0) ? static_cast<Basis>(auxint) : interaction;
 
   double squids_time;
   H5LTget_attribute_double(group, "basic", "squids_time", &squids_time);
@@ -2301,7 +2306,8 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   HI_constants = params.sqrt2*params.GF*params.Na*pow(params.cm,-3);
 
   // evolve projectors to current time
-  EvolveProjectors(squids_time);
+  if(basis != mass)
+    EvolveProjectors(squids_time);
 
   // reading state
   H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr);
@@ -2396,6 +2402,9 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   if(err>=0) tauregeneration=auxint;
   err=H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint);
   if(err>=0) iglashow=auxint;
+  // the state components depend on the basis in which it was evolved
+  err=H5LTget_attribute_int(group, "basic", "basis", &auxint);
+  basis=(err>=0) ? static_cast<Basis>(auxint) : interaction;
 
   double squids_time;
   H5LTget_attribute_double(group, "basic", "squids_time", &squids_time);
@@ -2509,7 +2518,8 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   HI_constants = params.sqrt2*params.GF*params.Na*pow(params.cm,-3);
 
   // evolve projectors to current time
-  EvolveProjectors(squids_time);
+  if(basis != mass)
+    EvolveProjectors(squids_time);
 
   // reading state
   H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr);
-- 
2.43.0


From eb4166d987dcfb943e2d204c78c297435cbfe05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 52/93] fix: reading the state of a single energy did not
 initialize an object again

---
 src/nuSQuIDS.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 38c520a..9f201ca 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2259,9 +2259,12 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
 
   // initializing nuSQUIDS
   if (ne == 1){
-    if(not inusquids)
+    if(NT == both or iinteraction)
+      init(E_range,squids_time_initial); // multiple energy mode with only one node
+    else {
       init(squids_time_initial);
-    Set_E(energy_data[0]);
+      Set_E(energy_data[0]);
+    }
   }
   else {
     init(E_range,squids_time_initial);
@@ -2472,9 +2475,12 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
 
   // initializing nuSQUIDS
   if (ne == 1){
-    if(not inusquids)
+    if(NT == both or iinteraction)
+      init(E_range,squids_time_initial); // multiple energy mode with only one node
+    else {
       init(squids_time_initial);
-    Set_E(energy_data[0]);
+      Set_E(energy_data[0]);
+    }
   }
   else {
     init(E_range,squids_time_initial);
-- 
2.43.0


From 31b1b2c2d3d495e81c6b4620e373fb550951fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 53/93] fix: the interaction cache was kept when the number of
 flavors changed

---
 src/nuSQuIDS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 9f201ca..7d0fca6 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -494,7 +494,7 @@ void nuSQUIDS::SetUpInteractionCache(){
   //check whether initialization has already been done
   if(interaction_cache.extent(0)==nrhos &&
      interaction_cache.extent(1)==ne &&
-     interaction_cache_store)
+     interaction_cache_store && interaction_cache[0][0].Dim()==numneu)
     return;
   const size_t nvectors=nrhos*ne;
   const size_t vector_size=numneu*numneu;
-- 
2.43.0


From 361ba7c719b0f170b53ae44bea3cbe51af538388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 54/93] fix: groups stayed open when writing the body or the
 track failed

---
 src/nuSQuIDS.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 7d0fca6..5ac1640 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1889,13 +1889,11 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
   H5LTmake_dataset(group,"aneustate",2,statedim,H5T_NATIVE_DOUBLE,static_cast<const void*>(aneustate.data()));
 
   // writing body and track information
-  hid_t track_group_id = H5Gcreate(group, "track", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-  track->Serialize(track_group_id);
-  H5Gclose(track_group_id);
+  H5Handle track_group(H5Gcreate(group, "track", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), H5Gclose, "create track group");
+  track->Serialize(track_group);
 
-  hid_t body_group_id = H5Gcreate(group, "body", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-  body->Serialize(body_group_id);
-  H5Gclose(body_group_id);
+  H5Handle body_group(H5Gcreate(group, "body", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), H5Gclose, "create body group");
+  body->Serialize(body_group);
 
   // writing cross section information
   H5Handle xs_group;
@@ -2352,11 +2350,10 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   }
 
   // read from user parameters
-  hid_t user_parameters_id = H5Gopen(group, "user_parameters", H5P_DEFAULT);
+  H5Handle user_parameters(H5Gopen(group, "user_parameters", H5P_DEFAULT), H5Gclose, "open user parameters group");
   //H5Eset_auto (H5E_DEFAULT,(H5E_auto_t) H5Eprint,stderr);
-  AddToReadHDF5(user_parameters_id);
+  AddToReadHDF5(user_parameters);
   //H5Eset_auto (H5E_DEFAULT,nullptr,nullptr);
-  H5Gclose(user_parameters_id);
 
   // we assume that this was created with the writer and got to this point!
   istate = true;
@@ -2792,11 +2789,10 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   }
 
   // read from user parameters
-  hid_t user_parameters_id = H5Gopen(group, "user_parameters", H5P_DEFAULT);
+  H5Handle user_parameters(H5Gopen(group, "user_parameters", H5P_DEFAULT), H5Gclose, "open user parameters group");
   //H5Eset_auto (H5E_DEFAULT,(H5E_auto_t) H5Eprint,stderr);
-  AddToReadHDF5(user_parameters_id);
+  AddToReadHDF5(user_parameters);
   //H5Eset_auto (H5E_DEFAULT,nullptr,nullptr);
-  H5Gclose(user_parameters_id);
 
   // we assume that this was created with the writer and got to this point!
   istate = true;
-- 
2.43.0


From aba0c7ddea6de7bae2635443b41fd8878160112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 55/93] fix: nuSQUIDSAtm left its state flag and its number of
 threads uninitialized

---
 include/nuSQuIDS/nuSQuIDS.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index deee8a7..c2d13be 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1097,9 +1097,9 @@ class nuSQUIDSAtm {
       return f1*yM + f2*yP;
     }
     /// \brief Boolean that signals that an initial state has being set.
-    bool iinistate;
+    bool iinistate = false;
     /// \brief Boolean that signals the object correct initialization.
-    bool inusquidsatm;
+    bool inusquidsatm = false;
     /// \brief Contains the cos(zenith) nodes.
     marray<double,1> costh_array;
     /// \brief Contains the energy nodes [eV].
@@ -1118,7 +1118,7 @@ class nuSQUIDSAtm {
     /// \brief Contains the interaction information structure.
     std::shared_ptr<typename BaseSQUIDS::InteractionStructure> int_struct;
     /// \brief the number of threads to use when performing the evolution
-    unsigned int evalThreads;
+    unsigned int evalThreads = 1;
   public:
     /************************************************************************************
      * CONSTRUCTORS
-- 
2.43.0


From 82c64ed7daeb4074af3d6219192344922d80dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 56/93] fix: nuSQUIDSAtm lost its random number generator when
 moved and never freed it

---
 include/nuSQuIDS/nuSQuIDS.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index c2d13be..55f75ed 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1083,7 +1083,7 @@ class nuSQUIDSAtm {
     using BaseSQUIDS = BaseType;
   private:
     /// \brief Random number generator
-    gsl_rng * r_gsl;
+    std::unique_ptr<gsl_rng,void (*)(gsl_rng*)> r_gsl{nullptr,gsl_rng_free};
     // /// \brief Mixing matrix
     // std::unique_ptr<gsl_matrix_complex,void (*)(gsl_matrix_complex *)> U{nullptr,[](gsl_matrix_complex*m){delete m;}};
     /// \brief Internal units
@@ -1140,7 +1140,7 @@ class nuSQUIDSAtm {
     {
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
-      r_gsl = gsl_rng_alloc (T_gsl);
+      r_gsl.reset(gsl_rng_alloc (T_gsl));
 
       earth_atm = std::make_shared<EarthAtm>();
       for(double costh : costh_array)
@@ -1171,13 +1171,14 @@ class nuSQUIDSAtm {
     nuSQUIDSAtm(std::string hdf5_filename) {
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
-      r_gsl = gsl_rng_alloc (T_gsl);
+      r_gsl.reset(gsl_rng_alloc (T_gsl));
       ReadStateHDF5(hdf5_filename);
       //U = nusq_array[0].GetTransformationMatrix();
     }
 
     /// \brief Move constructor.
     nuSQUIDSAtm(nuSQUIDSAtm&& other):
+    r_gsl(std::move(other.r_gsl)),
     progressbar(other.progressbar),
     iinistate(other.iinistate),
     inusquidsatm(other.inusquidsatm),
@@ -1200,6 +1201,7 @@ class nuSQUIDSAtm {
       if(&other==this)
         return(*this);
 
+      r_gsl = std::move(other.r_gsl);
       progressbar = other.progressbar;
       iinistate = other.iinistate;
       inusquidsatm = other.inusquidsatm;
@@ -1383,7 +1385,7 @@ class nuSQUIDSAtm {
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
       if (randomize_production_height){
-        double production_height = gsl_ran_flat(r_gsl,-15*units.km,15*units.km);
+        double production_height = gsl_ran_flat(r_gsl.get(),-15*units.km,15*units.km);
         delta_t_final += production_height;
       }
       
-- 
2.43.0


From ba746a1658f6515b95ce5cbc000e99c668cfc108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 57/93] fix: nuSQUIDSAtm evaluations read beyond the nodes, the
 flavors or the equations

---
 include/nuSQuIDS/nuSQuIDS.h | 54 ++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 55f75ed..f557832 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1344,12 +1344,16 @@ class nuSQUIDSAtm {
     /// is done in the logarithm of the energy and cos(zenith).
     double EvalFlavor(unsigned int flv,double costh,double enu,unsigned int rho = 0, bool randomize_production_height = false) const {
       // here the energy enters in eV
-      if(not iinistate)
-        throw std::runtime_error("nuSQUIDSAtm::Error::State not initialized.");
       if(not inusquidsatm)
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
+      if(not iinistate)
+        throw std::runtime_error("nuSQUIDSAtm::Error::State not initialized.");
       if(not ( rho == 0 or rho == 1))
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho has to be 0 or 1.");
+      if(rho >= GetNumRho())
+        throw std::runtime_error("nuSQUIDSAtm::Error::Cannot evaluate rho != 0 in this NT mode.");
+      if(flv >= GetNumNeu())
+        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::Flavor index greater than number of flavors.");
       
       if( costh < *costh_array.begin() or costh > *costh_array.rbegin())
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::cos(th) out of bounds.");
@@ -1366,6 +1370,8 @@ class nuSQUIDSAtm {
       if(cthit!=costh_array.begin())
         cthit--;
       size_t cth_M=std::distance(costh_array.begin(),cthit);
+      // with only one node there is nothing to interpolate between
+      size_t cth_P=(costh_array.size()>1) ? cth_M+1 : cth_M;
       
       /*double logE = log(enu);
       auto logeit=std::lower_bound(log_enu_array.begin(),log_enu_array.end(),logE);
@@ -1381,6 +1387,7 @@ class nuSQUIDSAtm {
       if(eit!=enu_array.begin())
         eit--;
       size_t loge_M=std::distance(enu_array.begin(),eit);
+      size_t loge_P=(enu_array.size()>1) ? loge_M+1 : loge_M;
       
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
@@ -1391,9 +1398,9 @@ class nuSQUIDSAtm {
       
       // assuming offsets are zero
       double delta_t_1 = nusq_array[cth_M].Get_t() - nusq_array[cth_M].Get_t_initial();
-      double delta_t_2 = nusq_array[cth_M+1].Get_t() - nusq_array[cth_M+1].Get_t_initial();
+      double delta_t_2 = nusq_array[cth_P].Get_t() - nusq_array[cth_P].Get_t_initial();
       double delta_t_final_1 = nusq_array[cth_M].GetTrackFast().GetFinalX() - nusq_array[cth_M].GetTrackFast().GetInitialX();
-      double delta_t_final_2 = nusq_array[cth_M+1].GetTrackFast().GetFinalX() - nusq_array[cth_M+1].GetTrackFast().GetInitialX();
+      double delta_t_final_2 = nusq_array[cth_P].GetTrackFast().GetFinalX() - nusq_array[cth_P].GetTrackFast().GetInitialX();
       double t_inter = 0.5*(delta_t_final*delta_t_1/delta_t_final_1 + delta_t_final*delta_t_2/delta_t_final_2);
       
       squids::SU_vector H0_at_enu = nusq_array[0].H0(enu,rho);
@@ -1410,19 +1417,21 @@ class nuSQUIDSAtm {
       storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(H0_at_enu,t_inter);
       
       //coefficients for energy interpolation
-      double f2=(enu-enu_array[loge_M])/(enu_array[loge_M+1]-enu_array[loge_M]);
+      double f2=(loge_P!=loge_M) ? (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]) : 0;
       double f1=1-f2;
 
       storage.temp1 =f1*nusq_array[cth_M  ].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_M+1,rho);
+      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_P,rho);
       double phiM=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
-      storage.temp1 =f1*nusq_array[cth_M+1].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M+1].GetState(loge_M+1,rho);
+      storage.temp1 =f1*nusq_array[cth_P].GetState(loge_M  ,rho);
+      storage.temp1+=f2*nusq_array[cth_P].GetState(loge_P,rho);
       double phiP=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
       //perform angular interpolation
-      return(LinInter(costh,costh_array[cth_M],costh_array[cth_M+1],phiM,phiP));
+      if(cth_P==cth_M)
+        return(phiM);
+      return(LinInter(costh,costh_array[cth_M],costh_array[cth_P],phiM,phiP));
     }
 
     /// \brief Returns the flavor composition at a given energy and zenith.
@@ -1437,12 +1446,16 @@ class nuSQUIDSAtm {
     /// is done in the logarithm of the energy and cos(zenith).
     double EvalFlavor(unsigned int flv,double costh,double enu,unsigned int rho,double scale,std::vector<bool> avr) const {
       // here the energy enters in eV
-      if(not iinistate)
-        throw std::runtime_error("nuSQUIDSAtm::Error::State not initialized.");
       if(not inusquidsatm)
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
+      if(not iinistate)
+        throw std::runtime_error("nuSQUIDSAtm::Error::State not initialized.");
       if(not ( rho == 0 or rho == 1))
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho has to be 0 or 1.");
+      if(rho >= GetNumRho())
+        throw std::runtime_error("nuSQUIDSAtm::Error::Cannot evaluate rho != 0 in this NT mode.");
+      if(flv >= GetNumNeu())
+        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::Flavor index greater than number of flavors.");
       
       if( costh < *costh_array.begin() or costh > *costh_array.rbegin())
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::cos(th) out of bounds.");
@@ -1459,6 +1472,8 @@ class nuSQUIDSAtm {
       if(cthit!=costh_array.begin())
         cthit--;
       size_t cth_M=std::distance(costh_array.begin(),cthit);
+      // with only one node there is nothing to interpolate between
+      size_t cth_P=(costh_array.size()>1) ? cth_M+1 : cth_M;
       
       /*double logE = log(enu);
       auto logeit=std::lower_bound(log_enu_array.begin(),log_enu_array.end(),logE);
@@ -1474,15 +1489,16 @@ class nuSQUIDSAtm {
       if(eit!=enu_array.begin())
         eit--;
       size_t loge_M=std::distance(enu_array.begin(),eit);
+      size_t loge_P=(enu_array.size()>1) ? loge_M+1 : loge_M;
       
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
       
       // assuming offsets are zero
       double delta_t_1 = nusq_array[cth_M].Get_t() - nusq_array[cth_M].Get_t_initial();
-      double delta_t_2 = nusq_array[cth_M+1].Get_t() - nusq_array[cth_M+1].Get_t_initial();
+      double delta_t_2 = nusq_array[cth_P].Get_t() - nusq_array[cth_P].Get_t_initial();
       double delta_t_final_1 = nusq_array[cth_M].GetTrackFast().GetFinalX() - nusq_array[cth_M].GetTrackFast().GetInitialX();
-      double delta_t_final_2 = nusq_array[cth_M+1].GetTrackFast().GetFinalX() - nusq_array[cth_M+1].GetTrackFast().GetInitialX();
+      double delta_t_final_2 = nusq_array[cth_P].GetTrackFast().GetFinalX() - nusq_array[cth_P].GetTrackFast().GetInitialX();
       double t_inter = 0.5*(delta_t_final*delta_t_1/delta_t_final_1 + delta_t_final*delta_t_2/delta_t_final_2);
       
       squids::SU_vector H0_at_enu = nusq_array[0].H0(enu,rho);
@@ -1501,20 +1517,22 @@ class nuSQUIDSAtm {
       storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(evol_buffer.get());
       
       //coefficients for energy interpolation
-      double f2=(enu-enu_array[loge_M])/(enu_array[loge_M+1]-enu_array[loge_M]);
+      double f2=(loge_P!=loge_M) ? (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]) : 0;
       double f1=1-f2;
       
       storage.temp1 =f1*nusq_array[cth_M  ].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_M+1,rho);
+      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_P,rho);
 
       double phiM=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
-      storage.temp1 =f1*nusq_array[cth_M+1].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M+1].GetState(loge_M+1,rho);
+      storage.temp1 =f1*nusq_array[cth_P].GetState(loge_M  ,rho);
+      storage.temp1+=f2*nusq_array[cth_P].GetState(loge_P,rho);
       double phiP=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
       //perform angular interpolation
-      return(LinInter(costh,costh_array[cth_M],costh_array[cth_M+1],phiM,phiP));
+      if(cth_P==cth_M)
+        return(phiM);
+      return(LinInter(costh,costh_array[cth_M],costh_array[cth_P],phiM,phiP));
     }
 
     /// \brief Writes the object into an HDF5 file.
-- 
2.43.0


From 07f40539047ea70ba6a6794967b3e1e02c3376e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 58/93] fix: nuSQUIDSAtm could never write its state into an
 existing file

---
 include/nuSQuIDS/nuSQuIDS.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index f557832..395c10b 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1548,10 +1548,10 @@ class nuSQUIDSAtm {
       hid_t file_id,root_id;
       hid_t dset_id;
       // create HDF5 file
-      if(overwrite)
-        file_id = H5Fcreate (filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
-      else
-        file_id = H5Fcreate (filename.c_str(), H5F_ACC_RDWR, H5P_DEFAULT, H5P_DEFAULT);
+      if(not overwrite)
+        file_id = H5Fopen (filename.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
+      if(overwrite or file_id < 0)
+        file_id = H5Fcreate (filename.c_str(), overwrite ? H5F_ACC_TRUNC : H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT);
       if (file_id < 0)
           throw std::runtime_error("nuSQUIDS::Error::Cannot create file at " + filename + ".");
       root_id = H5Gopen(file_id, "/",H5P_DEFAULT);
@@ -1560,10 +1560,13 @@ class nuSQUIDSAtm {
       hsize_t costhdims[1]={costh_array.extent(0)};
       dset_id = H5LTmake_dataset(root_id,"zenith_angles",1,costhdims,H5T_NATIVE_DOUBLE,costh_array.get_data());
       hsize_t energydims[1]={enu_array.extent(0)};
-      dset_id = H5LTmake_dataset(root_id,"energy_range",1,energydims,H5T_NATIVE_DOUBLE,enu_array.get_data());
+      if(dset_id >= 0)
+        dset_id = H5LTmake_dataset(root_id,"energy_range",1,energydims,H5T_NATIVE_DOUBLE,enu_array.get_data());
 
       H5Gclose (root_id);
       H5Fclose (file_id);
+      if(dset_id < 0)
+        throw std::runtime_error("nuSQUIDSAtm::Error::Cannot write the zenith and energy nodes to " + filename + ".");
 
       unsigned int i = 0;
       for(const BaseSQUIDS& nsq : nusq_array){
-- 
2.43.0


From 5cb49bff0b10788b00f906a0c5345039a4c902b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 59/93] fix: nuSQUIDSAtm read uninitialized sizes from
 incomplete files and kept its former tracks and cross sections

---
 include/nuSQuIDS/nuSQuIDS.h | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 395c10b..2d8b433 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1582,40 +1582,44 @@ class nuSQUIDSAtm {
     /// \details All contents are assumed to be saved to the \c root of the HDF5 file.
     /// @see WriteStateHDF5
     void ReadStateHDF5(std::string hdf5_filename){
-      hid_t file_id,group_id,root_id;
       // open HDF5 file
       H5File file(H5Fopen(hdf5_filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT));
       if (file < 0)
         throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: Unable to open file: " + hdf5_filename + ". No such file or directory");
-      root_id = H5Gopen(file, "/",H5P_DEFAULT);
-      group_id = root_id;
+      H5Handle group_id(H5Gopen(file, "/",H5P_DEFAULT), H5Gclose, "open HDF5 group");
 
       // read the zenith range dimension
       hsize_t costhdims[1];
-      H5LTget_dataset_info(group_id, "zenith_angles", costhdims, nullptr, nullptr);
-
-      double data[costhdims[0]];
-      H5LTread_dataset_double(group_id, "zenith_angles", data);
+      int rank = 0;
+      if(H5LTget_dataset_ndims(group_id, "zenith_angles", &rank) < 0 or rank != 1 or
+         H5LTget_dataset_info(group_id, "zenith_angles", costhdims, nullptr, nullptr) < 0 or costhdims[0] == 0)
+        throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: Unable to read the zenith angles from " + hdf5_filename);
+
+      std::vector<double> data(costhdims[0]);
+      if(H5LTread_dataset_double(group_id, "zenith_angles", data.data()) < 0)
+        throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: Unable to read the zenith angles from " + hdf5_filename);
       costh_array.resize(std::vector<size_t> {static_cast<unsigned long>(costhdims[0])});
       for (unsigned int i = 0; i < costhdims[0]; i ++)
         costh_array[i] = data[i];
 
       hsize_t energydims[1];
-      H5LTget_dataset_info(group_id, "energy_range", energydims, nullptr, nullptr);
+      if(H5LTget_dataset_ndims(group_id, "energy_range", &rank) < 0 or rank != 1 or
+         H5LTget_dataset_info(group_id, "energy_range", energydims, nullptr, nullptr) < 0 or energydims[0] == 0)
+        throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: Unable to read the energies from " + hdf5_filename);
 
-      double enu_data[energydims[0]];
-      H5LTread_dataset_double(group_id, "energy_range", enu_data);
+      std::vector<double> enu_data(energydims[0]);
+      if(H5LTread_dataset_double(group_id, "energy_range", enu_data.data()) < 0)
+        throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: Unable to read the energies from " + hdf5_filename);
       enu_array.resize(std::vector<size_t>{static_cast<unsigned long>(energydims[0])});log_enu_array.resize(std::vector<size_t>{static_cast<unsigned long>(energydims[0])});
       for (unsigned int i = 0; i < energydims[0]; i ++){
         enu_array[i] = enu_data[i];
         log_enu_array[i] = log(enu_data[i]);
       }
 
-      H5Gclose(root_id);
-
       // resize apropiately the nuSQUIDSAtm container vector
       nusq_array.clear();
       nusq_array = std::vector<BaseSQUIDS>(costhdims[0]);
+      int_struct.reset();
 
       unsigned int i = 0;
       for(BaseSQUIDS& nsq : nusq_array){
@@ -1631,7 +1635,12 @@ class nuSQUIDSAtm {
         i++;
       }
       earth_atm = std::dynamic_pointer_cast<EarthAtm>(nusq_array.front().GetBody());
-      assert(earth_atm);
+      if(not earth_atm)
+        throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: The body in " + hdf5_filename + " is not an EarthAtm.");
+      track_array.clear();
+      for(BaseSQUIDS& nsq : nusq_array)
+        track_array.push_back(std::dynamic_pointer_cast<EarthAtm::Track>(nsq.GetTrack()));
+      ncs = nusq_array.front().GetNeutrinoCrossSections();
 
       iinistate = true;
       inusquidsatm = true;
-- 
2.43.0


From ddba92bdcc103aeda0f4497565292d52de94f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 60/93] fix: nuSQUIDSAtm ignored the errors of an evolution
 with several threads

---
 include/nuSQuIDS/nuSQuIDS.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 2d8b433..45e1f6d 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1325,12 +1325,21 @@ class nuSQUIDSAtm {
         for(BaseSQUIDS& nsq : nusq_array)
           tasks.emplace_back(tpool.enqueue([&](){ nsq.EvolveState(); }));
         unsigned int i = 0;
-        for(const auto& task : tasks){
-          task.wait();
+        std::exception_ptr error;
+        for(auto& task : tasks){
+          try{
+            task.get();
+          } catch(...){
+            // wait for the rest before reporting it
+            if(not error)
+              error = std::current_exception();
+          }
           if(overrideProgressBar)
             std::cout << "cos(th) = " + std::to_string(costh_array[i++]) << " complete" << std::endl;
         }
         Set_ProgressBar(overrideProgressBar);
+        if(error)
+          std::rethrow_exception(error);
       }
     }
 
-- 
2.43.0


From 2c38aeeb73c7858bbf7c20dedc87e702ed401341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 61/93] fix: nuSQUIDSAtm kept the trajectories of the former
 Earth model

---
 include/nuSQuIDS/nuSQuIDS.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 45e1f6d..d9132eb 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1945,8 +1945,11 @@ class nuSQUIDSAtm {
     /// @param earth Shared pointer to Earth object.
     void Set_EarthModel(std::shared_ptr<EarthAtm> earth){
       earth_atm=earth;
-      for(BaseSQUIDS& nsq : nusq_array){
-        nsq.Set_Body(earth);
+      // the trajectories depend on the geometry of the body
+      for(unsigned int i = 0; i < nusq_array.size(); i++){
+        track_array[i] = std::make_shared<EarthAtm::Track>(earth_atm->MakeTrackWithCosine(costh_array[i]));
+        nusq_array[i].Set_Body(earth);
+        nusq_array[i].Set_Track(track_array[i]);
       }
     }
   
-- 
2.43.0


From 1b516ed0b300c9d9268718e9bfcdc333df1f3e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 62/93] fix: nuSQUIDSAtm stayed usable after failing to read a
 state

---
 include/nuSQuIDS/nuSQuIDS.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index d9132eb..5a487c9 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1591,6 +1591,9 @@ class nuSQUIDSAtm {
     /// \details All contents are assumed to be saved to the \c root of the HDF5 file.
     /// @see WriteStateHDF5
     void ReadStateHDF5(std::string hdf5_filename){
+      // unusable until everything has been read
+      iinistate = false;
+      inusquidsatm = false;
       // open HDF5 file
       H5File file(H5Fopen(hdf5_filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT));
       if (file < 0)
-- 
2.43.0


From cecf185e329511962fd39798869ba6e75cbcfc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 63/93] fix: cross sections that could not be tabulated were
 used when trying again

---
 src/nuSQuIDS.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 5ac1640..f066130 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -986,6 +986,12 @@ void nuSQUIDS::InitializeInteractions(){
   // if we don't already have cached data, create it
   if ( !int_struct ) {
     int_struct.reset(new InteractionStructure);
+    // what could not be completed must not be taken for cached data later
+    struct Guard{
+      std::shared_ptr<InteractionStructure>& data;
+      bool complete;
+      ~Guard(){ if(!complete) data.reset(); }
+    } guard{int_struct,false};
     // initialize cross section object if we don't have one
     if ( ncs == nullptr) {
       ncs = std::make_shared<CrossSectionLibrary>(loadDefaultCrossSections());
@@ -1028,6 +1034,7 @@ void nuSQUIDS::InitializeInteractions(){
       std::cerr << ex.what() << std::endl;
       throw std::runtime_error("nuSQUIDS::init : Failed while trying to fill in interaction vectors [InitializeInteractions]");
     }
+    guard.complete = true;
   }
   
   if(iinteraction){
-- 
2.43.0


From a5b778f96a103be8206c0de2c88363f4581683b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 64/93] fix: a vanishing Glashow resonance cross section was
 divided by itself

---
 src/nuSQuIDS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index f066130..c2ba1e7 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1207,7 +1207,7 @@ void nuSQUIDS::GetGlashowCrossSections(){
     }
     for(unsigned int e1 = 0; e1 < ne; e1++){
       for(unsigned int e2 = 0; e2 < e1; e2++){
-        int_struct->dNdE_GR[e1][e2] = dsignudE_GR[e1][e2]/int_struct->sigma_GR[e1];
+        int_struct->dNdE_GR[e1][e2] = (dsignudE_GR[e1][e2] == 0) ? 0 : dsignudE_GR[e1][e2]/int_struct->sigma_GR[e1];
       }
     }
 }
-- 
2.43.0


From cd4948f239e8e4baef08d3e44f536e7373c189d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 65/93] fix: the Glashow resonance stayed enabled when its
 cross sections could not be tabulated

---
 src/nuSQuIDS.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index c2ba1e7..d420037 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2913,14 +2913,13 @@ void nuSQUIDS::Set_TauRegeneration(bool opt){
 void nuSQUIDS::Set_GlashowResonance(bool opt){
   if( not iinteraction and opt )
     throw std::runtime_error("nuSQUIDS::Error::nuSQuIDs has been initialized without interactions, thus the Glashow resonance cannot be enabled.");
-  bool enabling = opt and not iglashow;
-  iglashow = opt;
-  if( enabling and interactions_initialized ){
+  if( opt and not iglashow and interactions_initialized ){
     // what is needed is only made for what was enabled then
     gr_factors.resize(std::vector<size_t>{round_up_to_aligned(ne)});
     if( NT == both or NT == antineutrino )
       GetGlashowCrossSections();
   }
+  iglashow = opt;
 }
 
 void nuSQUIDS::Set_ProgressBar(bool opt){
-- 
2.43.0


From 80e6e8f56a9afda7bef77e4b284265be001e8fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 66/93] fix: bodies without a source kept injecting the flux of
 the body before

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index d420037..2e0444e 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -282,6 +282,8 @@ void nuSQUIDS::PreDerive(double x){
   current_ye = body->ye(*track);
   current_density = body->density(*track);
   if(enable_neutrino_sources){
+    //bodies which do not inject anything here must not keep the flux of another place or body
+    std::fill(current_external_flux.begin(),current_external_flux.end(),0.0);
     body->injected_neutrino_flux(current_external_flux,*track,*this);
     assert(current_external_flux.extent(0) == ne && current_external_flux.extent(1) == nrhos && current_external_flux.extent(2) == numneu);
   }
-- 
2.43.0


From 5e1be3f22722eeacf9b01d274664a90051720e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 67/93] fix: a positivity step that is not positive was
 accepted and converted to a number of steps out of range

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 2e0444e..2b7f71e 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1248,6 +1248,8 @@ void nuSQUIDS::Set_PositivityConstrain(bool opt){
 }
 
 void nuSQUIDS::Set_PositivityConstrainStep(double step){
+  if(not (step > 0))
+    throw std::runtime_error("nuSQUIDS::Error::The positivity step must be positive.");
   positivization_scale = step;
 }
 
-- 
2.43.0


From 747bbb4a663baf29d97dd2b55c229e5ed1fd8ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 68/93] fix: incomplete files and cross section tables of other
 sizes were read without noticing

---
 src/nuSQuIDS.cpp | 140 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 101 insertions(+), 39 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 2b7f71e..6bc1f19 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -72,6 +72,19 @@ std::string getStringAttribute(hid_t loc_id, const char* obj_name, const char* a
   return(std::string(buffer.get(),type_size));
 }
 
+void requireHDF5(herr_t err, const std::string& what){
+  if(err<0)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Failed to read "+what+".");
+}
+
+void requireHDF5Dims(hid_t loc_id, const char* name, int rank, hsize_t* dims){
+  int ndims;
+  requireHDF5(H5LTget_dataset_ndims(loc_id,name,&ndims),name);
+  if(ndims!=rank)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: "+std::string(name)+" has the wrong number of dimensions.");
+  requireHDF5(H5LTget_dataset_info(loc_id,name,dims,nullptr,nullptr),name);
+}
+
 } // close unnamed namespace
 
 void nuSQUIDS::init(double xini){
@@ -2177,17 +2190,25 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   if ( group < 0 )
       throw std::runtime_error("nuSQUIDS::Error::Group '" + grp + "' does not exist in HDF5.");
 
+  // until everything has been read there is nothing to be evolved or evaluated
+  istate = false;
+  interactions_initialized = false;
+
   // read number of neutrinos
-  H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu));
+  requireHDF5(H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu)),"basic/numneu");
   // neutrino/antineutrino/both
   int auxint;
-  char auxchar[20];
   herr_t err;
-  H5LTget_attribute_int(group, "basic", "NT", &auxint);
+  requireHDF5(H5LTget_attribute_int(group, "basic", "NT", &auxint),"basic/NT");
   NT = static_cast<NeutrinoType>(auxint);
   // interactions
-  H5LTget_attribute_string(group,"basic","interactions", auxchar);
-  std::string aux = auxchar;
+  hsize_t auxdims;
+  H5T_class_t auxclass;
+  size_t auxsize;
+  requireHDF5(H5LTget_attribute_info(group,"basic","interactions",&auxdims,&auxclass,&auxsize),"basic/interactions");
+  std::vector<char> auxchar(auxsize+1,'\0');
+  requireHDF5(H5LTget_attribute_string(group,"basic","interactions",auxchar.data()),"basic/interactions");
+  std::string aux = auxchar.data();
   if ( aux == "True")
     iinteraction = true;
   else
@@ -2204,21 +2225,21 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   basis=(err>=0) ? static_cast<Basis>(auxint) : interaction;
 
   double squids_time;
-  H5LTget_attribute_double(group, "basic", "squids_time", &squids_time);
+  requireHDF5(H5LTget_attribute_double(group, "basic", "squids_time", &squids_time),"basic/squids_time");
 
   double squids_time_initial;
-  H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial);
+  requireHDF5(H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial),"basic/squids_time_initial");
 
   // check version numbers
   unsigned int squids_version;
-  H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version);
+  requireHDF5(H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version),"basic/squids_version_number");
 
   if ( squids_version > SQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using SQuIDS version " +
         std::to_string(squids_version) + " current version is " + std::to_string(SQUIDS_VERSION));
 
   unsigned int nusquids_version;
-  H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version);
+  requireHDF5(H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version),"basic/nusquids_version_number");
   if ( nusquids_version > NUSQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using nuSQuIDS version " +
         std::to_string(nusquids_version) + " current version is " + std::to_string(NUSQUIDS_VERSION));
@@ -2257,11 +2278,11 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
 
   // reading energy
   hsize_t dims[2];
-  H5LTget_dataset_info(group, "energies", dims, nullptr, nullptr);
+  requireHDF5Dims(group, "energies", 1, dims);
 
   ne = static_cast<unsigned int>(dims[0]);
   std::unique_ptr<double[]> energy_data(new double[ne]);
-  H5LTread_dataset_double(group, "energies", energy_data.get());
+  requireHDF5(H5LTread_dataset_double(group, "energies", energy_data.get()),"energies");
   E_range = marray<double,1>{ne};
   for (unsigned int ie = 0; ie < ne; ie++)
     E_range[ie] = energy_data[ie];
@@ -2285,12 +2306,12 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     for( unsigned int j = i+1; j < numneu; j++ ){
       double th_value;
       std::string th_label = "th"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value);
+      requireHDF5(H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value),"mixingangles/"+th_label);
       Set_MixingAngle(i,j,th_value);
 
       double delta_value;
       std::string delta_label = "delta"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value);
+      requireHDF5(H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value),"CPphases/"+delta_label);
       Set_CPPhase(i,j,delta_value);
     }
   }
@@ -2298,7 +2319,7 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   for( unsigned int i = 1; i < numneu; i++ ){
     double dm2_value;
     std::string dm2_label = "dm"+std::to_string(i+1)+"1sq";
-    H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value);
+    requireHDF5(H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value),"massdifferences/"+dm2_label);
     Set_SquareMassDifference(i, dm2_value);
   }
 
@@ -2322,13 +2343,17 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     EvolveProjectors(squids_time);
 
   // reading state
-  H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr);
+  requireHDF5Dims(group, "neustate", 2, dims);
+  if(dims[0]!=ne or dims[1]!=numneu*numneu)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: neustate has the wrong size.");
   std::unique_ptr<double[]> neudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"neustate", neudata.get());
+  requireHDF5(H5LTread_dataset_double(group,"neustate", neudata.get()),"neustate");
 
-  H5LTget_dataset_info(group,"aneustate", dims,nullptr,nullptr);
+  requireHDF5Dims(group, "aneustate", 2, dims);
+  if(dims[0]!=ne or dims[1]!=numneu*numneu)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: aneustate has the wrong size.");
   std::unique_ptr<double[]> aneudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"aneustate", aneudata.get());
+  requireHDF5(H5LTread_dataset_double(group,"aneustate", aneudata.get()),"aneustate");
 
   for(unsigned int ie = 0; ie < dims[0]; ie++){
     for (unsigned int j = 0; j < dims[1]; j ++){
@@ -2391,17 +2416,25 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   if( group < 0 )
       throw std::runtime_error("nuSQUIDS::Error::Group '" + grp + "' does not exist in HDF5.");
 
+  // until everything has been read there is nothing to be evolved or evaluated
+  istate = false;
+  interactions_initialized = false;
+
   // read number of neutrinos
-  H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu));
+  requireHDF5(H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu)),"basic/numneu");
   // neutrino/antineutrino/both
   int auxint;
-  char auxchar[20];
   herr_t err;
-  H5LTget_attribute_int(group, "basic", "NT", &auxint);
+  requireHDF5(H5LTget_attribute_int(group, "basic", "NT", &auxint),"basic/NT");
   NT = static_cast<NeutrinoType>(auxint);
   // interactions
-  H5LTget_attribute_string(group,"basic","interactions", auxchar);
-  std::string aux = auxchar;
+  hsize_t auxdims;
+  H5T_class_t auxclass;
+  size_t auxsize;
+  requireHDF5(H5LTget_attribute_info(group,"basic","interactions",&auxdims,&auxclass,&auxsize),"basic/interactions");
+  std::vector<char> auxchar(auxsize+1,'\0');
+  requireHDF5(H5LTget_attribute_string(group,"basic","interactions",auxchar.data()),"basic/interactions");
+  std::string aux = auxchar.data();
   if ( aux == "True")
     iinteraction = true;
   else
@@ -2418,21 +2451,21 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   basis=(err>=0) ? static_cast<Basis>(auxint) : interaction;
 
   double squids_time;
-  H5LTget_attribute_double(group, "basic", "squids_time", &squids_time);
+  requireHDF5(H5LTget_attribute_double(group, "basic", "squids_time", &squids_time),"basic/squids_time");
 
   double squids_time_initial;
-  H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial);
+  requireHDF5(H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial),"basic/squids_time_initial");
 
   // check version numbers
   unsigned int squids_version;
-  H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version);
+  requireHDF5(H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version),"basic/squids_version_number");
 
   if ( squids_version > SQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using SQuIDS version " +
         std::to_string(squids_version) + " current version is " + std::to_string(SQUIDS_VERSION));
 
   unsigned int nusquids_version;
-  H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version);
+  requireHDF5(H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version),"basic/nusquids_version_number");
   if ( nusquids_version > NUSQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using nuSQuIDS version " +
         std::to_string(nusquids_version) + " current version is " + std::to_string(NUSQUIDS_VERSION));
@@ -2472,11 +2505,11 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
 
   // reading energy
   hsize_t dims[2];
-  H5LTget_dataset_info(group, "energies", dims, nullptr, nullptr);
+  requireHDF5Dims(group, "energies", 1, dims);
 
   ne = static_cast<unsigned int>(dims[0]);
   std::unique_ptr<double[]> energy_data(new double[ne]);
-  H5LTread_dataset_double(group, "energies", energy_data.get());
+  requireHDF5(H5LTread_dataset_double(group, "energies", energy_data.get()),"energies");
   E_range = marray<double,1>{ne};
   for (unsigned int ie = 0; ie < ne; ie++)
     E_range[ie] = energy_data[ie];
@@ -2499,12 +2532,12 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     for( unsigned int j = i+1; j < numneu; j++ ){
       double th_value;
       std::string th_label = "th"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value);
+      requireHDF5(H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value),"mixingangles/"+th_label);
       Set_MixingAngle(i,j,th_value);
 
       double delta_value;
       std::string delta_label = "delta"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value);
+      requireHDF5(H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value),"CPphases/"+delta_label);
       Set_CPPhase(i,j,delta_value);
     }
   }
@@ -2512,7 +2545,7 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   for( unsigned int i = 1; i < numneu; i++ ){
     double dm2_value;
     std::string dm2_label = "dm"+std::to_string(i+1)+"1sq";
-    H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value);
+    requireHDF5(H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value),"massdifferences/"+dm2_label);
     Set_SquareMassDifference(i, dm2_value);
   }
 
@@ -2536,13 +2569,17 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     EvolveProjectors(squids_time);
 
   // reading state
-  H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr);
+  requireHDF5Dims(group, "neustate", 2, dims);
+  if(dims[0]!=ne or dims[1]!=numneu*numneu)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: neustate has the wrong size.");
   std::unique_ptr<double[]> neudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"neustate", neudata.get());
+  requireHDF5(H5LTread_dataset_double(group,"neustate", neudata.get()),"neustate");
 
-  H5LTget_dataset_info(group,"aneustate", dims,nullptr,nullptr);
+  requireHDF5Dims(group, "aneustate", 2, dims);
+  if(dims[0]!=ne or dims[1]!=numneu*numneu)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: aneustate has the wrong size.");
   std::unique_ptr<double[]> aneudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"aneustate", aneudata.get());
+  requireHDF5(H5LTread_dataset_double(group,"aneustate", aneudata.get()),"aneustate");
 
   for(unsigned int ie = 0; ie < dims[0]; ie++){
     for (unsigned int j = 0; j < dims[1]; j ++){
@@ -2581,7 +2618,7 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     else{
       //new files record the specific targets tabulated
       hsize_t rawNTargets=0;
-      H5LTget_dataset_info(xs_grp,"targets",&rawNTargets,nullptr,nullptr);
+      requireHDF5Dims(xs_grp,"targets",1,&rawNTargets);
       if(rawNTargets<1)
         throw std::runtime_error("Number of target types for cross sections does not make sense");
       nTargets=rawNTargets;
@@ -2598,8 +2635,33 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     }
     
     //get the actual dimensions of the main tables
-    H5LTget_dataset_info(xs_grp,"sigmacc",&XSdim[0],nullptr,nullptr);
-    H5LTget_dataset_info(xs_grp,"dNdEcc",&dXSdim[0],nullptr,nullptr);
+    requireHDF5Dims(xs_grp,"sigmacc",XSdim.size(),&XSdim[0]);
+    requireHDF5Dims(xs_grp,"dNdEcc",dXSdim.size(),&dXSdim[0]);
+    //the tables, which may be shared, must be those of an object with the same energies, flavors and types
+    {
+      std::vector<hsize_t> expected{nrhos,numneu,ne,ne};
+      if(XSdim.size()==4)
+        expected.insert(expected.begin(),nTargets);
+      std::vector<hsize_t> expectedTotal(expected.begin(),expected.end()-1), expectedGR{ne,ne}, expectedTau{nrhos,ne,ne};
+      auto requireSize=[&](const char* name, const std::vector<hsize_t>& size){
+        std::vector<hsize_t> found(size.size());
+        requireHDF5Dims(xs_grp,name,found.size(),found.data());
+        if(found!=size)
+          throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: cross section table "+std::string(name)+" has the wrong size.");
+      };
+      requireSize("sigmacc",expectedTotal);
+      requireSize("sigmanc",expectedTotal);
+      requireSize("sigmagr",std::vector<hsize_t>{ne});
+      requireSize("dNdEcc",expected);
+      requireSize("dNdEnc",expected);
+      requireSize("dNdEgr",expectedGR);
+      int tau_rank=0;
+      requireHDF5(H5LTget_dataset_ndims(xs_grp,"dNdEtauall",&tau_rank),"dNdEtauall");
+      if(tau_rank==2) //legacy data with polarization averaged
+        expectedTau.erase(expectedTau.begin());
+      requireSize("dNdEtauall",expectedTau);
+      requireSize("dNdEtaulep",expectedTau);
+    }
     
     if(!nTargets) //if we don't yet know this, we're reading a new file and it's in the dataset dimensions
       nTargets=XSdim.front(); //first dimension is target type
-- 
2.43.0


From 3954539037dba8c76cbb7593ae254bb72ca931fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 69/93] fix: writing the state without overwriting replaced
 files that are not HDF5 and mixed two states in the root group

---
 src/nuSQuIDS.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 6bc1f19..eac50d3 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1814,7 +1814,7 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
               H5Fopen(str.c_str(), H5F_ACC_RDWR, H5P_DEFAULT));
 
   if (file < 0) {// file could not be open. Create a new file.
-    file=H5File(H5Fcreate(str.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT));
+    file=H5File(H5Fcreate(str.c_str(), overwrite ? H5F_ACC_TRUNC : H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT));
     if (file < 0)
         throw std::runtime_error("nuSQUIDS: Error: Cannot create file at " + str + ".");
   }
@@ -1828,8 +1828,12 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
   H5Handle group;
   if ( grp != "/" )
     group = H5Handle(H5Gcreate(rootGroup, grp.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 group");
-  else
+  else {
     group = H5Handle(rootGroup.get(),[](hid_t)->herr_t{ return 0; },"get HDF5 group"); //non-owning handle
+    // a group can be created only once, but the root group is always there
+    if(h5ObjectExists(group,"basic"))
+      throw std::runtime_error("nuSQUIDS::Error::The file " + str + " has already a state in its root group.");
+  }
 
   // write the energy range
   hsize_t Edims[1]={E_range.extent(0)};
@@ -2192,6 +2196,7 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
 
   // until everything has been read there is nothing to be evolved or evaluated
   istate = false;
+  ienergy = false;
   interactions_initialized = false;
 
   // read number of neutrinos
@@ -2418,6 +2423,7 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
 
   // until everything has been read there is nothing to be evolved or evaluated
   istate = false;
+  ienergy = false;
   interactions_initialized = false;
 
   // read number of neutrinos
-- 
2.43.0


From 2a9d87589eb384a353cfe32a476b25f6b82e9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 70/93] fix: the container of the injected fluxes kept its size
 when a state of another size was read

---
 src/nuSQuIDS.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index eac50d3..b013b10 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -145,6 +145,10 @@ void nuSQUIDS::init(double xini){
 
   positivization_scale = 300.0*params.km;
 
+  // the container for the injected fluxes has the size of the state
+  if(enable_neutrino_sources)
+    Set_NeutrinoSources(true);
+
   //precompute this product for HI to avoid repeating expensive pow() calls.
   HI_constants = params.sqrt2*params.GF*params.Na*pow(params.cm,-3);
 
@@ -258,6 +262,10 @@ void nuSQUIDS::init(marray<double,1> E_vector, double xini){
 
   positivization_scale = 300.0*params.km;
 
+  // the container for the injected fluxes has the size of the state
+  if(enable_neutrino_sources)
+    Set_NeutrinoSources(true);
+
   if(iinteraction){
     Set_NonCoherentRhoTerms(true);
     Set_OtherRhoTerms(true);
-- 
2.43.0


From c6c2d02d055ad5741bb223cb0389376674a9b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 71/93] fix: an interaction structure of another size was
 accepted when reading the state

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index b013b10..2202942 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2384,6 +2384,8 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   if(iinteraction) {
     if ( iis == nullptr ){
       throw std::runtime_error("nuSQUIDS::ReadStateHDF5::No interaction structure provided.");
+    } else if ( iis->dNdE_CC.extent(1) != nrhos or iis->dNdE_CC.extent(2) != numneu or iis->dNdE_CC.extent(3) != ne ){
+      throw std::runtime_error("nuSQUIDS::ReadStateHDF5::The interaction structure provided has the wrong size.");
     } else {
       int_struct = iis;
       size_t rounded_ne=round_up_to_aligned(ne);
-- 
2.43.0


From e7a3df15093b0bad872f0e03c23a9abef15217a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 72/93] fix: the interaction cache was resized while its
 vectors referred to memory already freed

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 2202942..1be5598 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -578,6 +578,8 @@ void nuSQUIDS::SetUpInteractionCache(){
   interaction_cache_store_size=headroom + nvectors*vector_size + (nvectors-1)*padding;
   //std::cout << "Allocating " << interaction_cache_store_size*sizeof(double) << " bytes" << std::endl;
   //std::cout << " space wasted achieving alignment: " << (headroom + (nvectors-1)*padding)*sizeof(double) << " bytes" << std::endl;
+  //vectors of a former size must be gone before the memory they refer to
+  interaction_cache.resize(std::initializer_list<size_t>{0,0});
   interaction_cache_store.reset(new double[interaction_cache_store_size]);
   
   interaction_cache.resize(std::initializer_list<size_t>{nrhos,ne});
-- 
2.43.0


From c301fe792b08889adf64802fc26ed8932fb5c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 73/93] fix: GetHamiltonian used a missing body, track or
 interactions and indices out of range

---
 src/nuSQuIDS.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 1be5598..e2aa557 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1789,6 +1789,18 @@ void nuSQUIDS::SetIniFlavorProyectors(){
 squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
   if (!ienergy)
     throw std::runtime_error("nuSQUIDS::Error::Energy not initialized");
+  if (not ibody or body == nullptr)
+    throw std::runtime_error("nuSQUIDS::Error::Body not initialized");
+  if (not itrack or track == nullptr)
+    throw std::runtime_error("nuSQUIDS::Error::TRACK is not initialized");
+  if (ei >= ne)
+    throw std::runtime_error("nuSQUIDS::Error::Energy index greater than number of energy nodes.");
+  if (rho >= nrhos)
+    throw std::runtime_error("nuSQUIDS::Error::Equation index greater than number of equations.");
+  if (iinteraction and not interactions_initialized)
+    InitializeInteractions();
+  if (iinteraction and not ioscillations)
+    SetUpInteractionCache();
   PreDerive(Get_t());
   if (basis == mass) // HI already includes the vacuum part
     return HI(ei,rho,Get_t());
-- 
2.43.0


From 1f93c0d443403be3f398910428e8789c40504fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 74/93] fix: nuSQUIDSAtm settings for one node and GetStates
 did not check their index

---
 include/nuSQuIDS/nuSQuIDS.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 5a487c9..b773bb3 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1737,6 +1737,8 @@ class nuSQUIDSAtm {
     /// \param h initial step size
     /// \param idx energy node index
     void Set_h(double h, unsigned int idx){
+      if(idx >= nusq_array.size())
+        throw std::runtime_error("nuSQUIDSAtm::Set_h: input index out of range.");
       nusq_array[idx].Set_h(h);
     }
   
@@ -1751,6 +1753,8 @@ class nuSQUIDSAtm {
     /// \param h maximum step size
     /// \param idx energy node index
     void Set_h_max(double h, unsigned int idx){
+      if(idx >= nusq_array.size())
+        throw std::runtime_error("nuSQUIDSAtm::Set_h_max: input index out of range.");
       nusq_array[idx].Set_h_max(h);
     }
   
@@ -1765,6 +1769,8 @@ class nuSQUIDSAtm {
     /// \param h minimum step size
     /// \param idx energy node index
     void Set_h_min(double h, unsigned int idx){
+      if(idx >= nusq_array.size())
+        throw std::runtime_error("nuSQUIDSAtm::Set_h_min: input index out of range.");
       nusq_array[idx].Set_h_min(h);
     }
 
@@ -1779,6 +1785,8 @@ class nuSQUIDSAtm {
     /// \param eps maximum allowed error
     /// \param idx energy node index
     void Set_abs_error(double eps, unsigned int idx){
+      if(idx >= nusq_array.size())
+        throw std::runtime_error("nuSQUIDSAtm::Set_abs_error: input index out of range.");
       nusq_array[idx].Set_abs_error(eps);
     }
 
@@ -1793,6 +1801,8 @@ class nuSQUIDSAtm {
     /// \param eps maximum allowed error
     /// \param idx energy node index
     void Set_rel_error(double eps, unsigned int idx){
+      if(idx >= nusq_array.size())
+        throw std::runtime_error("nuSQUIDSAtm::Set_rel_error: input index out of range.");
       nusq_array[idx].Set_rel_error(eps);
     }
 
@@ -1847,6 +1857,8 @@ class nuSQUIDSAtm {
     /// @param rho Index of equation. In `both` propagation mode, neutrinos = 0 and 
     /// antineutrinos = 1.
     marray<double,2> GetStates(unsigned int rho = 0){
+      if(rho >= GetNumRho())
+        throw std::runtime_error("nuSQUIDSAtm::GetStates: rho out of range.");
       marray<double,2> states {GetNumNodes(),GetNumNeu()*GetNumNeu()};
       for(int i=0; i<nusq_array.size(); i++){
         std::vector<double> state_vec = nusq_array[i].GetState(0, rho).GetComponents();
-- 
2.43.0


From 184ab5bb3cd143ad243a0be14b2daf7282383bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 75/93] fix: null bodies and tracks were used

---
 src/nuSQuIDS.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index e2aa557..bdcb1a5 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1238,11 +1238,15 @@ void nuSQUIDS::GetGlashowCrossSections(){
 }
 
 void nuSQUIDS::Set_Body(std::shared_ptr<Body> body_in){
+  if(not body_in)
+    throw std::runtime_error("nuSQUIDS::Error::BODY is a NULL pointer");
   body = body_in;
   ibody = true;
 }
 
 void nuSQUIDS::Set_Track(std::shared_ptr<Track> track_in){
+  if(not track_in)
+    throw std::runtime_error("nuSQUIDS::Error::TRACK is a NULL pointer");
   // setting time offset
   time_offset = Get_t() - track_in->GetInitialX();
   // enforce track beginningness
-- 
2.43.0


From 948a63f528fe90c85faca53704d83c9d09413afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 76/93] fix: a null Earth model was used

---
 include/nuSQuIDS/nuSQuIDS.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index b773bb3..f132fb5 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1959,6 +1959,8 @@ class nuSQUIDSAtm {
     /// \brief Stes Earth object to be use.
     /// @param earth Shared pointer to Earth object.
     void Set_EarthModel(std::shared_ptr<EarthAtm> earth){
+      if(not earth)
+        throw std::runtime_error("nuSQUIDSAtm::Error::The Earth model is a NULL pointer.");
       earth_atm=earth;
       // the trajectories depend on the geometry of the body
       for(unsigned int i = 0; i < nusq_array.size(); i++){
-- 
2.43.0


From 1f83a27bd956a7fe4567264a42a4c29b5ed419c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 77/93] fix: an empty array of energies ended the program

---
 src/nuSQuIDS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index bdcb1a5..38f44bb 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -188,8 +188,9 @@ void nuSQUIDS::init(marray<double,1> E_vector, double xini){
 
   nsun = numneu;
 
+  if ( E_vector.size() == 0 )
+    throw std::runtime_error("nuSQUIDS::Error::At least one energy is needed");
   ne = E_vector.size();
-  assert(ne>0);
 
   //===============================
   // BEGIN                       //
-- 
2.43.0


From d7372535e4835a3dd189561f4c744f8c32a3f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:01 +0000
Subject: [PATCH 78/93] fix: the number of flavors of an empty object was not
 initialized

---
 include/nuSQuIDS/nuSQuIDS.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index f132fb5..862feae 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -86,7 +86,7 @@ protected:
   /// is performed.
     Basis basis = interaction;
     /// \brief number of neutrino flavors.
-    unsigned int numneu;
+    unsigned int numneu = 0;
     /// \brief number of energy nodes.
     unsigned int ne = nx;
 
-- 
2.43.0


From a1131c628cc29d06a830e2b9f5b39523d2f0f67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 79/93] fix: an ensemble without zeniths was made and used

---
 include/nuSQuIDS/nuSQuIDS.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 862feae..656155c 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1138,6 +1138,8 @@ class nuSQUIDSAtm {
     costh_array(costh_array),
     evalThreads(1)
     {
+      if(costh_array.size() == 0)
+        throw std::runtime_error("nuSQUIDSAtm::Error::At least one zenith is needed.");
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
       r_gsl.reset(gsl_rng_alloc (T_gsl));
-- 
2.43.0


From 3ca2e735108b4226f389db399aa48abd68ccdbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:26 +0000
Subject: [PATCH 80/93] fix: a body or track missing from a file of an early
 version was read from uninitialized memory

---
 src/nuSQuIDS.cpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 38f44bb..9ca7f27 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2288,22 +2288,22 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   } else {
     unsigned int body_id;
     hsize_t dimbody[1];
-    H5LTget_attribute_uint(group,"body","ID",&body_id);
+    requireHDF5(H5LTget_attribute_uint(group,"body","ID",&body_id),"body/ID");
 
-    H5LTget_dataset_info(group,"body", dimbody,nullptr,nullptr);
-    double body_params[dimbody[0]];
-    H5LTread_dataset_double(group,"body", body_params);
+    requireHDF5Dims(group,"body",1,dimbody);
+    std::vector<double> body_params(dimbody[0]);
+    requireHDF5(H5LTread_dataset_double(group,"body", body_params.data()),"body");
 
     hsize_t dimtrack[1];
-    H5LTget_dataset_info(group,"track", dimtrack ,nullptr,nullptr);
-    std::unique_ptr<double[]> track_params(new double[dimtrack[0]]);
-    H5LTread_dataset_double(group,"track", track_params.get());
+    requireHDF5Dims(group,"track",1,dimtrack);
+    std::vector<double> track_params(dimtrack[0]);
+    requireHDF5(H5LTread_dataset_double(group,"track", track_params.data()),"track");
 
     double x_current;
-    H5LTget_attribute_double(group,"track","X",&x_current);
+    requireHDF5(H5LTget_attribute_double(group,"track","X",&x_current),"track/X");
 
     // setting body and track
-    SetBodyTrack(body_id,dimbody[0],body_params,dimtrack[0],track_params.get());
+    SetBodyTrack(body_id,dimbody[0],body_params.data(),dimtrack[0],track_params.data());
     // set trayectory to current time
     track->SetX(x_current);
   }
@@ -2517,22 +2517,22 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   } else {
     unsigned int body_id;
     hsize_t dimbody[1];
-    H5LTget_attribute_uint(group,"body","ID",&body_id);
+    requireHDF5(H5LTget_attribute_uint(group,"body","ID",&body_id),"body/ID");
 
-    H5LTget_dataset_info(group,"body",dimbody,nullptr,nullptr);
-    double body_params[dimbody[0]];
-    H5LTread_dataset_double(group,"body", body_params);
+    requireHDF5Dims(group,"body",1,dimbody);
+    std::vector<double> body_params(dimbody[0]);
+    requireHDF5(H5LTread_dataset_double(group,"body", body_params.data()),"body");
 
     hsize_t dimtrack[1];
-    H5LTget_dataset_info(group,"track",dimtrack,nullptr,nullptr);
-    std::unique_ptr<double[]> track_params(new double[dimtrack[0]]);
-    H5LTread_dataset_double(group,"track", track_params.get());
+    requireHDF5Dims(group,"track",1,dimtrack);
+    std::vector<double> track_params(dimtrack[0]);
+    requireHDF5(H5LTread_dataset_double(group,"track", track_params.data()),"track");
 
     double x_current;
-    H5LTget_attribute_double(group,"track","X",&x_current);
+    requireHDF5(H5LTget_attribute_double(group,"track","X",&x_current),"track/X");
 
     // setting body and track
-    SetBodyTrack(body_id,dimbody[0],body_params,dimtrack[0],track_params.get());
+    SetBodyTrack(body_id,dimbody[0],body_params.data(),dimtrack[0],track_params.data());
 
     // set trayectory to current time
     track->SetX(x_current);
-- 
2.43.0


From 850765066e1268aab067a8219102386123bef6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:26 +0000
Subject: [PATCH 81/93] fix: an unknown body in a file of an early version
 ended the program

---
 src/nuSQuIDS.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 9ca7f27..85ec4b1 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2967,8 +2967,7 @@ void nuSQUIDS::SetBodyTrack(unsigned int body_id, unsigned int body_params_len,
         }
       default:
         {
-          std::cerr << "nuSQUIDS::SetBodyTrack : unknown body/track" << std::endl;
-          exit(1);
+          throw std::runtime_error("nuSQUIDS::SetBodyTrack : unknown body/track");
         }
     }
 }
-- 
2.43.0


From e83c69bbd6acfd2732e35208efc99b048b17f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:26 +0000
Subject: [PATCH 82/93] fix: too few parameters of a body or track in a file of
 an early version were read past their end

---
 src/nuSQuIDS.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 85ec4b1..38c0574 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2913,6 +2913,11 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
 
 
 void nuSQUIDS::SetBodyTrack(unsigned int body_id, unsigned int body_params_len, double body_params[], unsigned int track_params_len, double track_params[]){
+    // all have two parameters for the track and none for the body, unless they need more
+    unsigned int body_needs = (body_id==2 ? 2 : 0);
+    unsigned int track_needs = (body_id==4 || body_id==7 ? 3 : 2);
+    if(body_params_len < body_needs || track_params_len < track_needs)
+      throw std::runtime_error("nuSQUIDS::SetBodyTrack : too few parameters for the body or track");
     switch(body_id){
       case 1:
         {
-- 
2.43.0


From e950fbc2b1637e287930d555df60ec9bb1bb8089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 83/93] fix: the final position of a track in a file of an
 early version was taken for its impact parameter

---
 src/nuSQuIDS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 38c0574..98b3567 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2959,7 +2959,8 @@ void nuSQUIDS::SetBodyTrack(unsigned int body_id, unsigned int body_params_len,
       case 6:
         {
           body = std::make_shared<SunASnu>();
-          track = std::make_shared<SunASnu::Track>(track_params[0],track_params[1]);
+          // as in GetTrackParams, the impact parameter follows the ends
+          track = std::make_shared<SunASnu::Track>(track_params[0],track_params[track_params_len>2 ? 2 : 1]);
           break;
         }
       case 7:
-- 
2.43.0


From 7b04cb1ce8727964f8b42ef77ecfe1499eca2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 84/93] fix: SolarModel: set the first radius of the table

The loop began at the second row, so the first radius was whatever was on
the stack: GSL aborted on radii out of order, or interpolated from a wrong
place.
---
 resources/user_contributions/SolarTransitions/SolarModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/user_contributions/SolarTransitions/SolarModel.cpp b/resources/user_contributions/SolarTransitions/SolarModel.cpp
index 5b32c89..8d83e84 100644
--- a/resources/user_contributions/SolarTransitions/SolarModel.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarModel.cpp
@@ -10,7 +10,7 @@ void SolarModel::splineinit(){
 
 	unsigned int arraysize = fluxR.extent(0);
 	double XfluxRarr[arraysize];
-  	for(unsigned int j = 1; j < arraysize; j++){
+  	for(unsigned int j = 0; j < arraysize; j++){
     	XfluxRarr[j] = fluxR[j][0];
   	}
 
-- 
2.43.0


From b6561eb38f4078b82fc54b2486a1d39d6465f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 85/93] fix: SolarModel: the whole Sun can be evaluated

Radii from 0 to 1 are accepted, but the tables begin and end a little
inside, and GSL aborts the program when asked for anything beyond.
---
 .../SolarTransitions/SolarModel.cpp             | 17 +++++++++++++----
 .../SolarTransitions/SolarModel.h               |  2 ++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/resources/user_contributions/SolarTransitions/SolarModel.cpp b/resources/user_contributions/SolarTransitions/SolarModel.cpp
index 8d83e84..98de04f 100644
--- a/resources/user_contributions/SolarTransitions/SolarModel.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarModel.cpp
@@ -1,5 +1,8 @@
 #include "SolarModel.h"
 
+#include <algorithm>
+#include <stdexcept>
+
 using namespace std;
 using namespace nusquids;
 
@@ -40,6 +43,12 @@ void SolarModel::splineinit(){
 	}
 }
 
+double SolarModel::radius(double R) const{
+	//the table need not reach the very center and surface
+	const gsl_spline* table=Rspline[Electron].get();
+	return std::min(std::max(R*Rsun,table->x[0]),table->x[table->size-1]);
+}
+
 double SolarModel::nuFlux(double R, double E, FluxType type) const{
 	if (R > 1.0 || R < 0.0){
     	throw std::runtime_error("Invalid R, must be between Rmin and Rmax");
@@ -48,10 +57,10 @@ double SolarModel::nuFlux(double R, double E, FluxType type) const{
 		return 0.0;
   	}
   	if ( spectrum_limits.find(type)->second.size() == 1 ){
-    	return gsl_spline_eval(Rspline[type].get(),R*Rsun,Racc[type].get());
+    	return gsl_spline_eval(Rspline[type].get(),radius(R),Racc[type].get());
  	} else if ( spectrum_limits.find(type)->second.size() == 2){
     if ( E > spectrum_limits.find(type)->second.front() and E < spectrum_limits.find(type)->second.back() )
-    	return gsl_spline_eval(Rspline[type].get(),R*Rsun,Racc[type].get())*gsl_spline_eval(Espline[type].get(),E,Eacc[type].get());
+    	return gsl_spline_eval(Rspline[type].get(),radius(R),Racc[type].get())*gsl_spline_eval(Espline[type].get(),E,Eacc[type].get());
     else
     	return 0.;
     } else{
@@ -63,14 +72,14 @@ double SolarModel::eDensity(double R) const {
 	if (R > 1.0 || R < 0.0){
     throw std::runtime_error("Invalid R, must be between 0 and 1.");
   }
-	return gsl_spline_eval(Rspline[Electron].get(),R*Rsun,Racc[Electron].get());
+	return gsl_spline_eval(Rspline[Electron].get(),radius(R),Racc[Electron].get());
 }
 
 double SolarModel::DMDensity(double R) const {
 	if (R > 1.0 || R < 0.0){
 		throw std::runtime_error("Invalid R, must be between 0 and 1.");
   }
-	return gsl_spline_eval(Rspline[DM].get(),R*Rsun,Racc[DM].get());
+	return gsl_spline_eval(Rspline[DM].get(),radius(R),Racc[DM].get());
 }
 
 unsigned int SolarModel::NumComp() const {
diff --git a/resources/user_contributions/SolarTransitions/SolarModel.h b/resources/user_contributions/SolarTransitions/SolarModel.h
index ac83d20..1c63477 100644
--- a/resources/user_contributions/SolarTransitions/SolarModel.h
+++ b/resources/user_contributions/SolarTransitions/SolarModel.h
@@ -50,6 +50,8 @@ class SolarModel {
     std::string SM;
     ///\brief Spline initializer helper function
 		void splineinit();
+    ///\brief Converts a fraction of the solar radius to the radius at which the tables are evaluated
+    double radius(double R) const;
 	public:
 		SolarModel(std::string solarmodel):SM(solarmodel){
       Racc.resize(num_components);Rspline.resize(num_components);
-- 
2.43.0


From 4858fa5e80495b782344a22178b12017642ad19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 86/93] fix: SolarTransitions: use the current mixing
 parameters

The Hamiltonian was made of what nuSQUIDS keeps from its construction, so
parameters set afterwards changed the basis but not the Hamiltonian.
---
 .../SolarTransitions/SolarProbabilities.cpp            | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
index 6cc3694..b9fa4a6 100644
--- a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
@@ -28,10 +28,16 @@ double SOP::SolarOscillationProbability(double E,double r) const {
 SU_vector SOP::Hamiltonian(double E, double r) const {
 
   double electron_number_density = solar_model->eDensity(r);
-  SU_vector H = DM2*(1./(2.*E));
+  // DM2 and b1_proj are those of the last initial state, and the parameters may have been changed since
+  SU_vector H(nsun);
+  H.SetAllComponents(0);
+  for(unsigned int i = 1; i < numneu; i++)
+    H += b0_proj[i]*(params.GetEnergyDifference(i)/(2.*E));
+  SU_vector electron_projector = b0_proj[nue];
+  electron_projector.RotateToB1(params);
   double CC_prefactor = HI_constants;// defined in nusquids
   double CC = CC_prefactor*electron_number_density;
-  H += CC*b1_proj[neutrino][nue];
+  H += CC*electron_projector;
 
   return std::move(H);
 }
-- 
2.43.0


From 80e2d76c9ac65f07be7c297e286f2afdcfba6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 87/93] fix: SolarTransitions: follow levels in any mass
 ordering

The states in matter are ordered by energy, but those in vacuum were taken
as numbered: with a negative mass difference a state was continued into
another one.
---
 .../SolarTransitions/SolarProbabilities.cpp          | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
index b9fa4a6..dae5e25 100644
--- a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
@@ -1,5 +1,8 @@
 #include "SolarProbabilities.h"
 
+#include <algorithm>
+#include <vector>
+
 using namespace squids;
 using namespace nusquids;
 
@@ -17,10 +20,17 @@ double SOP::SolarOscillationProbability(double E,double r) const {
 
   auto UPMNS = GetTransformationMatrix();
 
+  // the vacuum states in the same order
+  std::vector<unsigned int> order(numneu);
+  for(unsigned int i = 0; i < numneu; i++)
+    order[i] = i;
+  auto mass = [&](unsigned int i){ return i == 0 ? 0. : params.GetEnergyDifference(i); };
+  std::sort(order.begin(),order.end(),[&](unsigned int i,unsigned int j){ return mass(i) < mass(j); });
+
   double osc_prob = 0;
   for(unsigned int i = 0; i < numneu; i++){
     osc_prob += gsl_complex_abs2(gsl_matrix_complex_get(eigensyst.second.get(),nue,i))*\
-                gsl_complex_abs2(gsl_matrix_complex_get(UPMNS.get(),nue,i));
+                gsl_complex_abs2(gsl_matrix_complex_get(UPMNS.get(),nue,order[i]));
   }
   return osc_prob;
 }
-- 
2.43.0


From 773dfc058e8a635cacc6207d6b6455359caace1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:32 +0000
Subject: [PATCH 88/93] fix: GetHamiltonian returned the Hamiltonian of
 parameters and energies no longer set

---
 src/nuSQuIDS.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 98b3567..8170a89 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1806,6 +1806,11 @@ squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
     InitializeInteractions();
   if (iinteraction and not ioscillations)
     SetUpInteractionCache();
+  if (not istate) {
+    // the parameters or energies may have changed since the last state was set
+    SetIniFlavorProyectors();
+    iniH0();
+  }
   PreDerive(Get_t());
   if (basis == mass) // HI already includes the vacuum part
     return HI(ei,rho,Get_t());
-- 
2.43.0


From 935282e4543afb03e86a47ae5b62edf5597283e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:42 +0000
Subject: [PATCH 89/93] fix: python: arrays in another byte order were read as
 they lie in memory

---
 resources/python/src/nuSQUIDSpy.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resources/python/src/nuSQUIDSpy.h b/resources/python/src/nuSQUIDSpy.h
index 307187d..7eaa90e 100644
--- a/resources/python/src/nuSQUIDSpy.h
+++ b/resources/python/src/nuSQUIDSpy.h
@@ -128,7 +128,10 @@ struct marray_from_python{
   }
 
   static void construct(PyObject* obj_ptr, boost::python::converter::rvalue_from_python_stage1_data* data){
-    PyArrayObject* numpy_array=PyArray_GETCONTIGUOUS((PyArrayObject*)obj_ptr);
+    // the data has to be contiguous, aligned and in the byte order of this machine
+    PyArrayObject* numpy_array=(PyArrayObject*)PyArray_FROM_OTF(obj_ptr,PyArray_TYPE((PyArrayObject*)obj_ptr),NPY_ARRAY_IN_ARRAY);
+    if(!numpy_array)
+      boost::python::throw_error_already_set();
     // get numpy array shape and create marray object
 #ifdef NPY_1_7_API_VERSION
     npy_intp* array_shape = PyArray_SHAPE(numpy_array);
-- 
2.43.0


From a81fbb3a3bc05c271ed7facedee9c940e9a9a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:42 +0000
Subject: [PATCH 90/93] fix: python: an empty array ended the program

---
 resources/python/src/nuSQUIDSpy.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/resources/python/src/nuSQUIDSpy.h b/resources/python/src/nuSQUIDSpy.h
index 7eaa90e..7f17cec 100644
--- a/resources/python/src/nuSQUIDSpy.h
+++ b/resources/python/src/nuSQUIDSpy.h
@@ -75,7 +75,8 @@ struct marray_to_numpyarray {
       size[i] = iarray.extent(i);
 
     PyArrayObject * pyObj = (PyArrayObject*) PyArray_SimpleNew(DIM,size,NPY_DOUBLE);
-    memcpy(PyArray_DATA(pyObj), data, sizeof(double) * iarray.size());
+    if(data)
+      memcpy(PyArray_DATA(pyObj), data, sizeof(double) * iarray.size());
 
     return PyArray_Return(pyObj);
   }
@@ -154,6 +155,12 @@ struct marray_from_python{
    oarray->resize(dimensions);
     auto it = oarray->begin();
 
+    // there is nothing to iterate over in an empty array
+    if(PyArray_SIZE(numpy_array)==0){
+      Py_XDECREF(numpy_array);
+      return;
+    }
+
     // create numpy iterator
     NpyIter* iter = NpyIter_New(numpy_array, NPY_ITER_READONLY|
                                 NPY_ITER_EXTERNAL_LOOP|
-- 
2.43.0


From f97402445d7f8f939ae6c7924cb0bdb22268daee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:42 +0000
Subject: [PATCH 91/93] fix: python: the height of the atmosphere could not be
 set

---
 resources/python/src/nuSQUIDSpy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/python/src/nuSQUIDSpy.cpp b/resources/python/src/nuSQUIDSpy.cpp
index e0a9763..4060463 100644
--- a/resources/python/src/nuSQUIDSpy.cpp
+++ b/resources/python/src/nuSQUIDSpy.cpp
@@ -441,7 +441,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def(init<std::string>())
     .def("GetRadius",&EarthAtm::GetRadius)
     .def("GetAtmosphereHeight",&EarthAtm::GetAtmosphereHeight)
-    .def("SetAtmosphereHeight",&EarthAtm::GetAtmosphereHeight)
+    .def("SetAtmosphereHeight",&EarthAtm::SetAtmosphereHeight)
     .def("MakeTrack",&EarthAtm::MakeTrack)
     .def("MakeTrackWithCosine",&EarthAtm::MakeTrackWithCosine)
     ;
-- 
2.43.0


From 6f58a7109d6db069392a8af37708db2818a78884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:42 +0000
Subject: [PATCH 92/93] fix: python: densities and compositions could not be
 evaluated on any track

---
 resources/python/src/nuSQUIDSpy.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/resources/python/src/nuSQUIDSpy.cpp b/resources/python/src/nuSQUIDSpy.cpp
index 4060463..8392b68 100644
--- a/resources/python/src/nuSQUIDSpy.cpp
+++ b/resources/python/src/nuSQUIDSpy.cpp
@@ -326,7 +326,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def("ye",&Vacuum::ye)
     ;
 
-    class_<Vacuum::Track, std::shared_ptr<Vacuum::Track> >("Track", init<double>())
+    class_<Vacuum::Track, bases<Body::Track>, std::shared_ptr<Vacuum::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def("GetInitialX",&Vacuum::Track::GetInitialX)
     .def("GetFinalX",&Vacuum::Track::GetFinalX)
@@ -346,7 +346,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def("ye",&ConstantDensity::ye)
     ;
 
-    class_<ConstantDensity::Track, std::shared_ptr<ConstantDensity::Track> >("Track", init<double>())
+    class_<ConstantDensity::Track, bases<Body::Track>, std::shared_ptr<ConstantDensity::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def("GetInitialX",&ConstantDensity::Track::GetInitialX)
     .def("GetFinalX",&ConstantDensity::Track::GetFinalX)
@@ -364,7 +364,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     = class_<VariableDensity, bases<Body>, std::shared_ptr<VariableDensity> >("VariableDensity", init< std::vector<double>,std::vector<double>,std::vector<double> >())
     ;
 
-    class_<VariableDensity::Track, std::shared_ptr<VariableDensity::Track> >("Track", init<double>())
+    class_<VariableDensity::Track, bases<Body::Track>, std::shared_ptr<VariableDensity::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def("GetInitialX",&VariableDensity::Track::GetInitialX)
     .def("GetFinalX",&VariableDensity::Track::GetFinalX)
@@ -383,7 +383,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def(init<std::string>())
     ;
 
-    class_<Earth::Track, std::shared_ptr<Earth::Track> >("Track", init<double>())
+    class_<Earth::Track, bases<Body::Track>, std::shared_ptr<Earth::Track> >("Track", init<double>())
     .def(init<double,double,double>())
     .def("GetInitialX",&Earth::Track::GetInitialX)
     .def("GetFinalX",&Earth::Track::GetFinalX)
@@ -402,7 +402,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def(init<std::string>())
     ;
 
-    class_<Sun::Track, std::shared_ptr<Sun::Track> >("Track", init<double>())
+    class_<Sun::Track, bases<Body::Track>, std::shared_ptr<Sun::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def("GetInitialX",&Sun::Track::GetInitialX)
     .def("GetFinalX",&Sun::Track::GetFinalX)
@@ -421,7 +421,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def(init<std::string>())
     ;
 
-    class_<SunASnu::Track, std::shared_ptr<SunASnu::Track> >("Track", init<double>())
+    class_<SunASnu::Track, bases<Body::Track>, std::shared_ptr<SunASnu::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def(init<double,double,double>())
     .def("GetInitialX",&SunASnu::Track::GetInitialX)
@@ -446,7 +446,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def("MakeTrackWithCosine",&EarthAtm::MakeTrackWithCosine)
     ;
 
-    class_<EarthAtm::Track, std::shared_ptr<EarthAtm::Track> >("Track", init<EarthAtm::Track>())
+    class_<EarthAtm::Track, bases<Body::Track>, std::shared_ptr<EarthAtm::Track> >("Track", init<EarthAtm::Track>())
     .def(init<double,double,double>())
     .def(init<double,double,double,double>())
     .def("GetInitialX",&EarthAtm::Track::GetInitialX)
-- 
2.43.0


From db58bb235c4d764ecc45e8fbfb16a4f1fb69bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:35 +0000
Subject: [PATCH 93/93] fix: python: GetState(e) read the state of an arbitrary
 kind of neutrino

There is one GetState, whose second argument has a default. Casting its
address to that of a function of one argument left the second one
undefined.
---
 resources/python/src/nuSQUIDSpy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/python/src/nuSQUIDSpy.h b/resources/python/src/nuSQUIDSpy.h
index 7f17cec..8a72470 100644
--- a/resources/python/src/nuSQUIDSpy.h
+++ b/resources/python/src/nuSQUIDSpy.h
@@ -279,6 +279,7 @@ public boost::python::detail::overloads_common<name<T>>{ \
 MAKE_OVERLOAD_TEMPLATE(WriteStateHDF5Overload,WriteStateHDF5,1,5)
 MAKE_OVERLOAD_TEMPLATE(ReadStateHDF5Overload,ReadStateHDF5,1,3)
 MAKE_OVERLOAD_TEMPLATE(SetInitialStateH5Overload,Set_initial_state,1,2)
+MAKE_OVERLOAD_TEMPLATE(GetStateOverload,GetState,1,2)
 
 // nuSQUIDSpy module definitions
 template<typename BaseType, typename = typename std::enable_if<std::is_base_of<nuSQUIDS,BaseType>::value>::type >
@@ -320,8 +321,7 @@ template<typename BaseType, typename = typename std::enable_if<std::is_base_of<n
       class_object->def("EvalMassAtNode",(double(BaseType::*)(unsigned int,unsigned int,unsigned int) const)&BaseType::EvalMassAtNode);
       class_object->def("EvalFlavorAtNode",(double(BaseType::*)(unsigned int,unsigned int,unsigned int) const)&BaseType::EvalFlavorAtNode);
       class_object->def("GetHamiltonian",&BaseType::GetHamiltonian);
-      class_object->def("GetState",(const squids::SU_vector&(BaseType::*)(unsigned int))&BaseType::GetState, return_value_policy<copy_const_reference>());
-      class_object->def("GetState",(const squids::SU_vector&(BaseType::*)(unsigned int, unsigned int))&BaseType::GetState, return_value_policy<copy_const_reference>());
+      class_object->def("GetState",(const squids::SU_vector&(BaseType::*)(unsigned int, unsigned int) const)&BaseType::GetState,GetStateOverload<BaseType>()[return_value_policy<copy_const_reference>()]);
       class_object->def("Set_EvolLowPassCutoff", &BaseType::Set_EvolLowPassCutoff);
       class_object->def("Set_EvolLowPassScale", &BaseType::Set_EvolLowPassScale);
       class_object->def("Set_h_min",&BaseType::Set_h_min);
-- 
2.43.0

